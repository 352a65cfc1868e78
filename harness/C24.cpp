// C24: user streams and locales neither disturb nor are disturbed.
#include "cfg.hpp"
#include "docs.hpp"
#include <clocale>
#include <configor/configor.hpp>
#include <fstream>
#include <iomanip>
#include <locale>
#include <memory>
#include <sstream>
using namespace cf;
using ref::U;
using ref::V;
static mc::Check ck;
using flags_t = std::ios_base::fmtflags;
using ios     = std::ios_base;
template <class Ch>
using Str = std::basic_string<Ch>;

// ---- locales -----------------------------------------------------------------------------------
template <class Ch>
struct Punct : std::numpunct<Ch>
{
    Ch          do_decimal_point() const override { return Ch(','); }
    Ch          do_thousands_sep() const override { return Ch('.'); }
    std::string do_grouping() const override { return "\1"; }
    Str<Ch>     do_truename() const override { return { Ch('j'), Ch('a') }; }
    Str<Ch>     do_falsename() const override { return { Ch('n') }; }
};
template <class Ch>
struct Put : std::num_put<Ch>
{
    using it = typename std::num_put<Ch>::iter_type;
    it say(it o) const
    {
        *o++ = Ch('?');
        return o;
    }
    it do_put(it o, ios&, Ch, bool) const override { return say(o); }
    it do_put(it o, ios&, Ch, long) const override { return say(o); }
    it do_put(it o, ios&, Ch, unsigned long) const override { return say(o); }
    it do_put(it o, ios&, Ch, long long) const override { return say(o); }
    it do_put(it o, ios&, Ch, unsigned long long) const override { return say(o); }
    it do_put(it o, ios&, Ch, double) const override { return say(o); }
    it do_put(it o, ios&, Ch, long double) const override { return say(o); }
    it do_put(it o, ios&, Ch, const void*) const override { return say(o); }
};
template <class Ch>
struct Get : std::num_get<Ch>
{
    using it = typename std::num_get<Ch>::iter_type;
    template <class T>
    it no(it i, ios::iostate& e, T& v) const
    {
        v = T();
        e |= ios::failbit;
        return i;
    }
    it do_get(it i, it, ios&, ios::iostate& e, bool& v) const override { return no(i, e, v); }
    it do_get(it i, it, ios&, ios::iostate& e, long& v) const override { return no(i, e, v); }
    it do_get(it i, it, ios&, ios::iostate& e, unsigned short& v) const override { return no(i, e, v); }
    it do_get(it i, it, ios&, ios::iostate& e, unsigned int& v) const override { return no(i, e, v); }
    it do_get(it i, it, ios&, ios::iostate& e, unsigned long& v) const override { return no(i, e, v); }
    it do_get(it i, it, ios&, ios::iostate& e, long long& v) const override { return no(i, e, v); }
    it do_get(it i, it, ios&, ios::iostate& e, unsigned long long& v) const override { return no(i, e, v); }
    it do_get(it i, it, ios&, ios::iostate& e, float& v) const override { return no(i, e, v); }
    it do_get(it i, it, ios&, ios::iostate& e, double& v) const override { return no(i, e, v); }
    it do_get(it i, it, ios&, ios::iostate& e, long double& v) const override { return no(i, e, v); }
    it do_get(it i, it, ios&, ios::iostate& e, void*& v) const override { return no(i, e, v); }
};
// digits, commas and quotes count as white space, as for reading separated lists
struct Blank : std::ctype<char>
{
    static const mask* table()
    {
        static std::vector<mask> t(classic_table(), classic_table() + table_size);
        t[','] |= space;
        t[';'] |= space;
        return t.data();
    }
    Blank()
        : std::ctype<char>(table())
    {
    }
};
static const std::vector<std::locale>& locales()
{
    static std::vector<std::locale> l = []
    {
        auto c = std::locale::classic();
        auto p = std::locale(std::locale(c, new Punct<char>), new Punct<wchar_t>);
        auto n = std::locale(std::locale(c, new Put<char>), new Put<wchar_t>);
        auto g = std::locale(std::locale(c, new Get<char>), new Get<wchar_t>);
        auto a = std::locale(std::locale(std::locale(std::locale(p, new Put<char>), new Put<wchar_t>), new Get<char>), new Get<wchar_t>);
        auto b = std::locale(p, new Blank);
        std::vector<std::locale> r{ c, p, n, g, a, b };
        try
        {
            r.push_back(std::locale("C.UTF-8"));
        }
        catch (const std::exception&)
        {
        }
        return r;
    }();
    return l;
}

// ---- the texts ---------------------------------------------------------------------------------
static std::string escape(const U& s, bool esc)
{
    std::string r = "\"";
    char        b[16];
    auto        hex = [&](uint32_t c)
    {
        std::snprintf(b, sizeof b, "\\u%04X", c);
        r += b;
    };
    for (auto c : s)
    {
        static const char from[] = "\"\\\b\f\n\r\t", to[] = "\"\\bfnrt";
        const char*       q = c && c < 0x80 ? std::strchr(from, static_cast<int>(c)) : nullptr;
        if (q)
            (r += '\\') += to[q - from];
        else if (c < 0x20 || (esc && c > 0x7E && c <= 0xFFFF))
            hex(c);
        else if (esc && c > 0xFFFF)
        {
            hex(0xD7C0 + c / 1024);
            hex(0xDC00 + c % 1024);
        }
        else
            ref::put8(r, c);
    }
    return r + "\"";
}
struct Set
{
    int     precision = 6;
    flags_t field     = flags_t();
    bool    esc       = false;
};
static std::string text_of(const V& v, const Set& s)
{
    char b[600];
    switch (v.k)
    {
    case ref::Null: return "null";
    case ref::Bool: return v.b ? "true" : "false";
    case ref::Int: return std::to_string(v.i);
    case ref::Float:
    {
        double f = static_cast<double>(v.f);
        if (std::floor(f) == f && std::fabs(f) < 9e18)
            return std::to_string(static_cast<long long>(f)) + ".0";
        // a precision of 0 or less means what it means to printf
        std::snprintf(b, sizeof b, s.field == ios::fixed ? "%.*f" : s.field == ios::scientific ? "%.*e" : "%.*g", s.precision, f);
        return std::strpbrk(b, ".e") ? b : std::string(b) + ".0";
    }
    case ref::Str: return escape(v.s, s.esc);
    case ref::Arr:
    {
        std::string r = "[";
        for (size_t k = 0; k < v.a.size(); ++k)
            r += (k ? "," : "") + text_of(v.a[k], s);
        return r + "]";
    }
    default:
    {
        std::string r = "{";
        for (size_t k = 0; k < v.o.size(); ++k)
            r += (k ? "," : "") + escape(v.o[k].first, s.esc) + ":" + text_of(v.o[k].second, s);
        return r + "}";
    }
    }
}
static const std::vector<V>& values()
{
    static std::vector<V> v = {
        V::integer(0), V::integer(-1234567), V::integer(INT64_MAX), V::integer(INT64_MIN), V::integer(255), V::floating(1.5), V::floating(-0.1), V::floating(1234567.0), V::floating(1e300), V::floating(12345.678), V::boolean(true), V::boolean(false), V(),
        V::string(U"a\x1f\x0a\u00e9\U0001d11e"), V::array({}), V::object({}),
        V::object({ { U"\x01", V::integer(4095) }, { U"f", V::array({ V::floating(0.25), V::boolean(true), V::string(U"\x02"), V::integer(-77), V::floating(3.5e-7) }) } }),
        V::array({ V::string(U"\x1f"), V::integer(171), V::string(U"\x0b"), V::floating(171.5), V::array({ V(), V::integer(1000000) }) }),
    };
    return v;
}
template <class Ch>
static Str<Ch> wide(const std::string& s)
{
    return ref::enc<Ch>(ref::dec(s));
}

// ---- the state of a stream ---------------------------------------------------------------------
template <class Ch>
struct State
{
    flags_t         flags;
    std::streamsize precision, width;
    Ch              fill;
    std::locale     loc, bufloc;
    ios::iostate    state, mask;
    const void*     buf;
    const void*     tie;
    explicit State(std::basic_ios<Ch>& s)
        : flags(s.flags())
        , precision(s.precision())
        , width(s.width())
        , fill(s.fill())
        , loc(s.getloc())
        , bufloc(s.rdbuf() ? s.rdbuf()->getloc() : std::locale::classic())
        , state(s.rdstate())
        , mask(s.exceptions())
        , buf(s.rdbuf())
        , tie(s.tie())
    {
    }
    // the first difference, if any
    const char* differs(const State& o, bool width_too) const
    {
        return flags != o.flags ? "flags" : precision != o.precision ? "precision" : width_too && width != o.width ? "width" : fill != o.fill ? "fill" : loc != o.loc ? "locale" : bufloc != o.bufloc ? "buffer's locale" : state != o.state ? "state"
               : mask != o.mask ? "exception mask" : buf != o.buf ? "buffer" : tie != o.tie ? "tied stream" : nullptr;
    }
};
// the flag sets: every combination of the flags that may matter
static flags_t flags_of(uint64_t i)
{
    static const flags_t one[] = { ios::boolalpha, ios::showbase, ios::showpoint, ios::showpos, ios::skipws, ios::unitbuf, ios::uppercase };
    static const flags_t base[] = { flags_t(), ios::dec, ios::oct, ios::hex }, adj[] = { flags_t(), ios::left, ios::right, ios::internal }, fl[] = { flags_t(), ios::fixed, ios::scientific, ios::fixed | ios::scientific };
    flags_t f{};
    for (int k = 0; k < 7; ++k)
        if (i >> k & 1)
            f |= one[k];
    i >>= 7;
    return f | base[i & 3] | adj[i >> 2 & 3] | fl[i >> 4 & 3];
}
static const uint64_t FLAGS = 8192;
static std::string say(flags_t f) { return "flags " + std::to_string(static_cast<unsigned>(f)); }
static Set set_of(flags_t f, int precision, bool esc = false)
{
    Set s;
    s.field     = f & ios::floatfield;
    s.precision = precision;
    s.esc       = esc;
    if (s.field == (ios::fixed | ios::scientific))
        s.field = flags_t();
    return s;
}

template <class Json, class Out>
static void dump_flags(mc::Ctx& cx, flags_t f, int precision, const std::locale& loc, const std::vector<V>& vs, const std::string& how)
{
    using Val = typename Json::value;
    using S   = typename Json::template serializer_type<Out>;
    for (auto& r : vs)
    {
        Val v = to<Val>(r);
        for (int route = 0; route < 5; ++route)
        {
            std::basic_ostringstream<Out> os, tied;
            os.imbue(loc);
            os.flags(f);
            os.precision(precision);
            os.fill(Out(route == 1 ? '#' : ' '));
            os.exceptions(route == 2 ? ios::badbit | ios::failbit | ios::eofbit : route == 3 ? ios::badbit : ios::goodbit);
            if (route == 3)
                os.tie(&tied);
            State<Out> before(os);
            bool       esc = route == 4;
            Err        e   = attempt([&]
                            {
                                if (route == 0)
                                    os << Json::wrap(v);
                                else if (route == 1)
                                    Json::dump(os, v);
                                else if (route == 2)
                                    os << Json::wrap(const_cast<const Val&>(v));
                                else if (route == 3)
                                    Json::dump(os, v, { S::with_indent(0) });
                                else
                                    Json::dump(os, v, { S::with_unicode_escaping(true) });
                            });
            cx.eval();
            auto want = wide<Out>(text_of(r, set_of(f, precision, esc)));
            if (e != none || os.str() != want)
                cx.fail("dumping " + ref::show(r) + " to a stream with " + how + " " + (e ? std::string("ended with ") + name(e) : "gave " + mc::shows(os.str())) + " instead of " + mc::shows(want) + " by route " + std::to_string(route));
            if (auto d = before.differs(State<Out>(os), true))
                cx.fail("dumping " + ref::show(r) + " to a stream with " + how + " changed its " + d + " by route " + std::to_string(route));
            cx.outcome(mc::hash(os.str().data(), os.str().size() * sizeof(Out)));
        }
    }
}
// a stream prepared for output holds any width and fill: the layout is that of the same options on a plain stream
template <class Json, class Out>
static void widths(mc::Ctx& cx, flags_t f, int width, char fill)
{
    using Val = typename Json::value;
    using S   = typename Json::template serializer_type<Out>;
    for (auto& r : { values()[16], values()[17], values()[13], values()[2] })
    {
        Val v    = to<Val>(r);
        std::basic_ostringstream<Out> plain;
        Json::dump(plain, v, { S::with_indent(static_cast<uint8_t>(width), Out(fill)), S::with_precision(6, f & ios::floatfield) });
        for (int route = 0; route < 3; ++route)
        {
            std::basic_ostringstream<Out> os;
            os.flags(f);
            os.fill(Out(fill));
            os.width(width);
            State<Out> before(os);
            Err        e = attempt([&]
                            {
                                if (route == 0)
                                    os << Json::wrap(v);
                                else if (route == 1)
                                    Json::dump(os, v);
                                else
                                    Json::dump(os, v, { S::with_unicode_escaping(false) });
                            });
            cx.eval();
            if (e || os.str() != plain.str())
                cx.fail("dumping " + ref::show(r) + " with " + say(f) + ", width " + std::to_string(width) + " and fill " + mc::show(std::string(1, fill)) + (e ? std::string(" ended with ") + name(e) : " gave " + mc::shows(os.str())) + " instead of "
                        + mc::shows(plain.str()));
            State<Out> after(os);
            if (after.width != 0)
                cx.fail("dumping left the width at " + std::to_string(after.width));
            if (auto d = before.differs(after, false))
                cx.fail(std::string("dumping with a width changed the stream's ") + d);
        }
        cx.outcome(mc::hash(plain.str().data(), plain.str().size() * sizeof(Out)));
    }
}
// widths no indentation has: a negative one writes the compact text, one above 255 some layout of the same document, both are consumed
static const std::vector<std::streamsize>& odd_widths()
{
    static const std::vector<std::streamsize> w{ -1, -2, -255, -256, -257, -1000, std::numeric_limits<int>::min(), std::numeric_limits<std::streamsize>::min(), 256, 257, 511, 512, 1000, 65536, 65537, std::numeric_limits<int>::max(), std::numeric_limits<std::streamsize>::max() };
    return w;
}
template <class Json, class Out>
static void odd_width(mc::Ctx& cx, flags_t f, std::streamsize width, char fill)
{
    using Val = typename Json::value;
    using S   = typename Json::template serializer_type<Out>;
    for (auto& r : values())
    {
        Val v = to<Val>(r);
        for (int route = 0; route < 4; ++route)
        {
            std::basic_ostringstream<Out> os;
            os.flags(f);
            os.fill(Out(fill));
            os.width(width);
            State<Out> before(os);
            bool       esc = route == 3;
            Err        e   = attempt([&]
                            {
                                if (route == 0)
                                    os << Json::wrap(v);
                                else if (route == 1)
                                    os << Json::wrap(const_cast<const Val&>(v));
                                else if (route == 2)
                                    Json::dump(os, v);
                                else
                                    Json::dump(os, v, { S::with_unicode_escaping(true) });
                            });
            cx.eval();
            auto want = wide<Out>(text_of(r, set_of(f, 6, esc)));
            auto got  = os.str();
            if (width > 0)  // compare without the blanks: no string here holds one
                got.erase(std::remove_if(got.begin(), got.end(), [](Out c) { return c == Out(' ') || c == Out('\t') || c == Out('\n'); }), got.end());
            auto bare = want;
            if (width > 0)
                bare.erase(std::remove_if(bare.begin(), bare.end(), [](Out c) { return c == Out(' ') || c == Out('\t') || c == Out('\n'); }), bare.end());
            if (e || got != bare)
                cx.fail("dumping " + ref::show(r) + " with " + say(f) + " and width " + std::to_string(width) + (e ? std::string(" ended with ") + name(e) : " gave " + mc::shows(os.str())) + " instead of " + mc::shows(want));
            State<Out> after(os);
            if (after.width != 0)
                cx.fail("dumping " + ref::show(r) + " left the width at " + std::to_string(after.width));
            if (auto d = before.differs(after, false))
                cx.fail(std::string("dumping with a width changed the stream's ") + d);
            cx.outcome(mc::hash(got.data(), got.size() * sizeof(Out)));
        }
    }
}
static const std::vector<std::string> texts = { "1234.5", "-1,5", "[1000,\"1.000\",true,0.5e2]", "{\"a\":0x1F}", "017", "ja", "[false,null,-0.25]", "1.000,5", "9223372036854775807", "9,223,372", "\"\\u001F\\u00e9\"", " [ 1 , 2.5 ] ", "+5", "+", "1e5", "1.e5", "[1;2]", ",1", "true", "\xc3\xa9", "\"\xc3\xa9\xf0\x9d\x84\x9e\"" };
template <class Json, class Ch>
static void parse_state(mc::Ctx& cx, flags_t f, const std::locale& loc, const std::string& t8, const std::string& how)
{
    using Val = typename Json::value;
    auto t    = wide<Ch>(t8);
    V    want;
    auto st = ref::parse(ref::dec(t8), want);
    for (int route = 0; route < 4; ++route)
        for (int w : { 0, 2 })
        {
            std::basic_istringstream<Ch> is(t);
            std::basic_ostringstream<Ch> tied;
            is.imbue(loc);
            is.flags(f);
            is.width(w);
            is.precision(2);
            is.fill(Ch('#'));
            is.tie(&tied);
            is.exceptions(route == 3 ? ios::badbit : ios::goodbit);
            State<Ch> before(is);
            Val       v = to<Val>(V::string(U"old"));
            int       n = 77;
            bool      skips = false;
            Err       e = attempt([&]
                            {
                                if (route == 0)
                                    v = Json::parse(is);
                                else if (route == 1)
                                    Json::parse(v, is);
                                else
                                {
                                    skips = f & ios::skipws;
                                    is >> Json::wrap(v);
                                }
                            });
            (void)n;
            cx.eval();
            State<Ch> after(is);
            if (auto d = before.differs(after, false))
                cx.fail("parsing " + t8 + " from a stream with " + how + " changed its " + d + " by route " + std::to_string(route));
            if (after.width != w && after.width != 0)
                cx.fail("parsing left another width");
            // an extraction skips the white space of the stream's locale first
            V    x  = want;
            auto s2 = st;
            if (skips)
            {
                size_t k = 0;
                while (k < t8.size() && std::isspace(static_cast<Ch>(static_cast<unsigned char>(t8[k])), loc))
                    ++k;
                s2 = ref::parse(ref::dec(t8.substr(k)), x);
            }
            if (s2 == ref::Ok ? e || !ref::eq(from(v), x, ref::literal_cmp()) : e != deserialization)
                cx.fail("parsing " + t8 + " from a stream with " + how + (e ? std::string(" ended with ") + name(e) : " gave " + ref::show(from(v))) + " by route " + std::to_string(route) + ", elsewhere it " + (s2 == ref::Ok ? "is " + ref::show(x) : "is refused"));
            cx.outcome(mc::mix(st) ^ shape_hash(want));
        }
}
struct GlobalLocale
{
    std::locale old;
    GlobalLocale(const std::locale& l)
        : old(std::locale::global(l))
    {
    }
    ~GlobalLocale() { std::locale::global(old); }
};
// a struct for the wrapped forms
struct Pair
{
    int    a = 1;
    double b = 0.5;
    CONFIGOR_BIND(json::value, Pair, REQUIRED(a), REQUIRED(b))
};

// ---- several operations on one stream ----------------------------------------------------------
// the user's own operations are done to a twin as well; what the library writes is known
struct OutOp
{
    const char*                                                   what;
    int                                                           value;  // >= 0: insert this value
    bool                                                          esc;    // by dump with escaping
    std::function<void(std::ostream&)>                            user;
};
static const std::vector<OutOp>& out_ops()
{
    static std::vector<OutOp> o = {
        { "<< wrap([..\\x1f..171..])", 17, false, {} },
        { "<< wrap(0.1)", 6, false, {} },
        { "dump(255, escaping)", 4, true, {} },
        { "dump({..}, escaping)", 16, true, {} },
        { "<< wrap(true)", 10, false, {} },
        { "<< 42", -1, false, [](std::ostream& s) { s << 42; } },
        { "<< 0.1", -1, false, [](std::ostream& s) { s << 0.1; } },
        { "<< hex << showbase << uppercase", -1, false, [](std::ostream& s) { s << std::hex << std::showbase << std::uppercase; } },
        { "<< setw(3) << 7", -1, false, [](std::ostream& s) { s << std::setw(3) << 7; } },
        { "<< setw(2)", -1, false, [](std::ostream& s) { s << std::setw(2); } },
        { "<< setfill('*') << setprecision(3)", -1, false, [](std::ostream& s) { s << std::setfill('*') << std::setprecision(3); } },
        { "<< scientific << showpos", -1, false, [](std::ostream& s) { s << std::scientific << std::showpos; } },
        { "<< boolalpha << true", -1, false, [](std::ostream& s) { s << std::boolalpha << true; } },
        { "imbue(comma)", -1, false, [](std::ostream& s) { s.imbue(locales()[1]); } },
        { "<< endl", -1, false, [](std::ostream& s) { s << std::endl; } },
        { "setstate(failbit)", -1, false, [](std::ostream& s) { s.setstate(ios::failbit); } },
        { "clear()", -1, false, [](std::ostream& s) { s.clear(); } },
    };
    return o;
}
static void out_sequence(mc::Ctx& cx, const std::vector<unsigned>& ops)
{
    std::ostringstream os, twin;
    std::string        did;
    for (auto k : ops)
    {
        auto& o = out_ops()[k];
        did += std::string(did.empty() ? "" : "; ") + o.what;
        if (o.value < 0)
        {
            o.user(os);
            o.user(twin);
        }
        else
        {
            auto& r   = values()[static_cast<size_t>(o.value)];
            auto  v   = to<json::value>(r);
            bool  ok  = o.esc || twin.good();
            Err   e   = attempt([&]
                            {
                                if (o.esc)
                                    json::dump(os, v, { json::serializer_type<char>::with_unicode_escaping(true) });
                                else
                                    os << json::wrap(v);
                            });
            if (e)
                cx.fail(did + " ended with " + name(e));
            if (ok)
            {
                std::string w;
                if (twin.width() == 0)
                    w = text_of(r, set_of(twin.flags(), static_cast<int>(twin.precision()), o.esc));
                else
                {
                    // the layout alone on a plain stream
                    std::ostringstream p;
                    using S = json::serializer_type<char>;
                    json::dump(p, v, { S::with_indent(static_cast<uint8_t>(twin.width()), twin.fill()), S::with_precision(static_cast<int>(twin.precision()), set_of(twin.flags(), 0).field), S::with_unicode_escaping(o.esc) });
                    w = p.str();
                }
                twin.rdbuf()->sputn(w.data(), static_cast<std::streamsize>(w.size()));
                twin.width(0);
            }
        }
        cx.transition();
        cx.eval();
        if (os.str() != twin.str())
            cx.fail("after " + did + " the stream holds " + mc::shows(os.str()) + " instead of " + mc::shows(twin.str()));
        State<char> a(os), b(twin);
        a.buf = b.buf = nullptr;
        if (auto d = a.differs(b, true))
            cx.fail("after " + did + " the stream's " + d + " is not what the user set");
    }
    cx.state(mc::hash(os.str() + std::to_string(static_cast<unsigned>(os.flags())) + "," + std::to_string(os.width()) + "," + std::to_string(os.precision()) + "," + std::to_string(os.rdstate()) + os.fill()));
}
// reading several documents, each ended by a NUL, among the user's own extractions
static const std::vector<std::string> segments = { std::string("[1,2]\0", 6), std::string(" {\"a\":1.5} // c\0", 16), std::string("\"x\"\0", 4), std::string("0x1F\0", 5), std::string("12 \0", 4), std::string("\0", 1) };
static const char* const              in_what[] = { ">> wrap", "parse", "get()", ">> int", ">> word", "hex", "noskipws", "clear", "setw(2)", "peek()" };
static void in_sequence(mc::Ctx& cx, const std::string& text, const std::vector<unsigned>& ops)
{
    std::istringstream is(text), twin(text);
    std::string        did = mc::shows(text) + ":";
    for (auto k : ops)
    {
        did += std::string(" ") + in_what[k] + ";";
        std::string a, b;
        auto        user = [&](std::istream& s, std::string& r)
        {
            int         n = -1;
            std::string w;
            switch (k)
            {
            case 2: r = std::to_string(s.get()); break;
            case 3: s >> n; r = std::to_string(n); break;
            case 4: s >> w; r = w; break;
            case 5: s >> std::hex; break;
            case 6: s >> std::noskipws; break;
            case 7: s.clear(); break;
            case 8: s >> std::setw(2); break;
            case 9: r = std::to_string(s.peek()); break;
            }
        };
        if (k >= 2)
        {
            user(is, a);
            user(twin, b);
        }
        else
        {
            json::value v = "old";
            auto        before = is.rdstate();
            Err         e      = attempt([&]
                            {
                                if (k == 0)
                                    is >> json::wrap(v);
                                else
                                    v = json::parse(is);
                            });
            // the twin: skip as an extraction does, then take the document and its NUL
            bool go = true;
            if (k == 0)
            {
                std::istream::sentry s(twin);
                go = static_cast<bool>(s);
            }
            if (!go)
            {
                if (e || !v.is_string())
                    cx.fail(did + " on a failed stream did something");
            }
            else
            {
                auto        at   = twin.rdbuf()->pubseekoff(0, ios::cur, ios::in);
                size_t      pos  = static_cast<size_t>(std::streamoff(at));
                std::string rest = text.substr(std::min(pos, text.size()));
                V           want;
                auto        st = ref::parse(ref::dec(rest), want);
                auto        nul = rest.find('\0');
                if (st == ref::Bad)
                {
                    // a document may also end at its first NUL, with anything after it: the reference knows
                    if (e != deserialization)
                        cx.fail(did + (e ? std::string(" ended with ") + name(e) : " gave " + ref::show(from(v))) + ", it must be refused");
                    if (before != is.rdstate())
                        cx.fail(did + " changed the state of the stream");
                    return;  // how far it read is another property's
                }
                if (e || !ref::eq(from(v), want, ref::Cmp()))
                    cx.fail(did + (e ? std::string(" ended with ") + name(e) : " gave " + ref::show(from(v))) + " instead of " + ref::show(want));
                size_t used = nul == std::string::npos ? rest.size() : nul + 1;
                twin.rdbuf()->pubseekoff(static_cast<std::streamoff>(pos + used), ios::beg, ios::in);
            }
        }
        cx.transition();
        cx.eval();
        if (a != b)
            cx.fail(did + " the user's own extraction gave " + a + " instead of " + b);
        State<char> x(is), y(twin);
        x.buf = y.buf = nullptr;
        if (auto d = x.differs(y, true))
            cx.fail(did + " the stream's " + d + " is not what the user set");
        auto p = is.rdbuf()->pubseekoff(0, ios::cur, ios::in), q = twin.rdbuf()->pubseekoff(0, ios::cur, ios::in);
        if (p != q)
            cx.fail(did + " the stream is at " + std::to_string(std::streamoff(p)) + " instead of " + std::to_string(std::streamoff(q)));
        cx.state(mc::mix(static_cast<uint64_t>(std::streamoff(p)) * 64 + static_cast<uint64_t>(is.rdstate())) ^ mc::hash(text) ^ static_cast<uint64_t>(is.flags()));
    }
}

// ---- failed streams ----------------------------------------------------------------------------
template <class Ch>
struct Deaf : std::basic_streambuf<Ch>  // counts what is asked of it
{
    using B  = std::basic_streambuf<Ch>;
    long calls = 0;
    typename B::int_type underflow() override
    {
        ++calls;
        return B::traits_type::to_int_type(Ch('1'));
    }
    typename B::int_type uflow() override { return underflow(); }
    typename B::int_type overflow(typename B::int_type c) override
    {
        ++calls;
        return c;
    }
    std::streamsize xsputn(const Ch*, std::streamsize n) override
    {
        calls += n;
        return n;
    }
    void imbue(const std::locale&) override { calls += 1000; }
};
template <class Json, class Ch>
static void failed(mc::Ctx& cx, ios::iostate st, ios::iostate mask, int width, int what, flags_t f)
{
    using Val = typename Json::value;
    struct Result
    {
        ios::iostate    state;
        std::streamsize width;
        bool            threw;
    };
    auto drive = [&](auto op)
    {
        Deaf<Ch>              b;
        std::basic_iostream<Ch> s(&b);
        s.flags(f);
        s.width(width);
        s.clear(st);
        Result r{};
        try
        {
            s.exceptions(mask);  // throws if it covers the state
        }
        catch (const ios::failure&)
        {
        }
        try
        {
            op(s);
        }
        catch (const ios::failure&)
        {
            r.threw = true;
        }
        r.state = s.rdstate();
        r.width = s.width();
        if (b.calls)
            cx.fail("a failed stream in state " + std::to_string(st) + " was still used by operation " + std::to_string(what));
        return r;
    };
    Val  v = to<Val>(values()[16]), old = v;
    Pair p;
    p.a = 5;
    std::vector<int> vec{ 1, 2 };
    auto             got = drive([&](std::basic_iostream<Ch>& s)
                     {
                         switch (what)
                         {
                         case 0: s << Json::wrap(v); break;
                         case 1: s << Json::wrap(const_cast<const Val&>(v)); break;
                         case 2: s << Json::wrap(vec); break;
                         case 3: s >> Json::wrap(v); break;
                         case 4: s >> Json::wrap(vec); break;
                         case 5: if constexpr (std::is_same<Json, json>::value) s >> json::wrap(p); else s >> Json::wrap(v); break;
                         }
                     });
    // the standard operators are the model
    auto want = drive([&](std::basic_iostream<Ch>& s)
                      {
                          Ch c = Ch('q');
                          if (what < 3)
                              s << c;
                          else
                              s >> c;
                          if (c != Ch('q'))
                              throw mc::Fail{ "the model is wrong" };
                      });
    cx.eval();
    if (got.state != want.state || got.threw != want.threw || got.width != want.width)
        cx.fail("operation " + std::to_string(what) + " on a stream in state " + std::to_string(st) + " left state " + std::to_string(got.state) + ", width " + std::to_string(got.width) + (got.threw ? ", and threw" : "") + ", the operators of the library leave state " + std::to_string(want.state)
                + ", width " + std::to_string(want.width) + (want.threw ? ", and throw" : ""));
    if (!(v == old) || p.a != 5 || vec != std::vector<int>{ 1, 2 })
        cx.fail("operation " + std::to_string(what) + " on a failed stream changed its operand");
    cx.outcome(mc::mix(static_cast<uint64_t>(got.state) * 2 + got.threw));
}
// ---- the buffer's own locale -------------------------------------------------------------------
static void buffer_locale(mc::Ctx& cx, const std::string& t8, bool stream_too)
{
    if (locales().size() < 7)
        return;
    auto& utf = locales()[6];
    char  path[] = "/tmp/c24XXXXXX";
    int   fd = mkstemp(path);
    if (fd < 0 || write(fd, t8.data(), t8.size()) != static_cast<ssize_t>(t8.size()))
        throw mc::Fail{ "no scratch file" };
    close(fd);
    auto end = [&](const std::string& s)
    {
        unlink(path);
        if (!s.empty())
            cx.fail(s);
    };
    std::wfilebuf b;
    b.pubimbue(utf);
    b.open(path, ios::in);
    std::wistream is(&b);
    if (stream_too)
        is.imbue(utf);
    V    want;
    auto st = ref::parse(ref::dec(t8), want);
    wjson::value v;
    Err          e = attempt([&] { wjson::parse(v, is); });
    cx.eval();
    if (st == ref::Ok ? e || !ref::eq(from(v), want, ref::literal_cmp()) : e != deserialization)
        return end("parsing " + t8 + " from a wide file buffer with a locale of its own " + (e ? std::string("ended with ") + name(e) : "gave " + ref::show(from(v))));
    if (b.getloc() != utf)
        return end("parsing changed the locale of the buffer");
    b.close();
    if (st == ref::Ok)
    {
        std::wfilebuf o;
        o.pubimbue(utf);
        o.open(path, ios::out | ios::trunc);
        std::wostream os(&o);
        if (stream_too)
            os.imbue(utf);
        e = attempt([&] { os << wjson::wrap(v); });
        o.close();
        std::ifstream     f(path);
        std::stringstream all;
        all << f.rdbuf();
        V back;
        if (e || ref::parse(ref::dec(all.str()), back) != ref::Ok || !ref::eq(back, want, ref::literal_cmp()))
            return end("dumping " + t8 + " to a wide file buffer with a locale of its own " + (e ? std::string("ended with ") + name(e) : "gave " + mc::shows(all.str())));
        if (o.getloc() != utf)
            return end("dumping changed the locale of the buffer");
    }
    end("");
    cx.outcome(shape_hash(want));
}

int main(int argc, char** argv)
{
    ck.id   = "C24";
    ck.part = "main";
    bool th = mc::is_thorough(argc, argv);
    ck.rule = "every combination of stream flags, locales and operation sequences within the stated bounds; a case is distinct by the text written, the value read or the state left";
    ck.assumptions = { "the character classification and conversion (ctype) of the caller's locale maps ASCII to itself" };
    static const int prec[] = { 6, 0, 3, 17, 40 };
    ck.add("dump flags", FLAGS * 5, "every combination of the 7 flags, 4 bases, 4 adjustments and 4 float forms with 5 precisions: 18 values by 5 routes", [](mc::Ctx& cx, uint64_t i)
           {
               auto f = flags_of(i % FLAGS);
               int  p = prec[i / FLAGS];
               dump_flags<json, char>(cx, f, p, std::locale::classic(), values(), say(f) + " and precision " + std::to_string(p));
           });
    ck.add("wide dump flags", FLAGS, "every combination of flags: wide values to wide and narrow streams", [th](mc::Ctx& cx, uint64_t i)
           {
               auto f = flags_of(i);
               dump_flags<wjson, wchar_t>(cx, f, 6, std::locale::classic(), values(), say(f));
               if (th || i % 8 == 3)
                   dump_flags<wjson, char>(cx, f, 6, std::locale::classic(), values(), say(f));
           });
    unsigned W = th ? 255 : 12;
    ck.add("widths", FLAGS / 16 * (W + 1) * 3, "every width to " + std::to_string(W) + " with 3 fills and every combination of flags, the adjustments excepted", [W](mc::Ctx& cx, uint64_t i)
           {
               uint64_t k = i % (FLAGS / 16);
               auto     f = flags_of((k & 127) | (k >> 7 & 3) << 11 | (k & 3) << 9);
               widths<json, char>(cx, f, static_cast<int>(i / (FLAGS / 16) % (W + 1)), " #\t"[i / (FLAGS / 16) / (W + 1)]);
           });
    ck.add("odd widths", odd_widths().size() * 2 * 64, "17 negative and large widths, 2 fills, 64 combinations of flags, narrow and wide: 18 values by 4 routes", [](mc::Ctx& cx, uint64_t i)
           {
               auto f    = flags_of((i & 3) * 0x21 | (i >> 2 & 15) << 9);
               auto w    = odd_widths()[i / 64 / 2];
               char fill = " \t"[i / 64 % 2];
               odd_width<json, char>(cx, f, w, fill);
               odd_width<wjson, wchar_t>(cx, f, w, fill);
           });
    size_t L = locales().size();
    ck.add("parse flags", FLAGS * texts.size(), "every combination of flags: 21 texts by 4 routes with and without a width", [](mc::Ctx& cx, uint64_t i)
           {
               auto f = flags_of(i % FLAGS);
               parse_state<json, char>(cx, f, std::locale::classic(), texts[i / FLAGS], say(f));
           });
    ck.add("locales", L * L * 128 * 2, "every pair of a global locale and a stream's locale (7: commas and grouping, broken number formatting, broken number reading, commas as white space, ...) with 128 flag combinations", [L](mc::Ctx& cx, uint64_t i)
           {
               mc::Digits d(i);
               size_t     a = d(L), b = d(L);
               auto       f = flags_of(d(128) * 64 + 37);
               bool       w = d(2);
               GlobalLocale g(locales()[a]);
               std::string  how = say(f) + ", global locale " + std::to_string(a) + ", its locale " + std::to_string(b);
               for (auto& t : texts)
               {
                   if (w)
                       parse_state<wjson, wchar_t>(cx, f, locales()[b], t, how);
                   else
                       parse_state<json, char>(cx, f, locales()[b], t, how);
               }
               if (w)
                   dump_flags<wjson, wchar_t>(cx, f, 6, locales()[b], values(), how);
               else
                   dump_flags<json, char>(cx, f, 6, locales()[b], values(), how);
           });
    ck.add("documents", all_documents().size() * 16, "documents with every kind of token, escape, number, character and error, and the dumping of their values, under 128 combinations of flags and 7 locales", [L](mc::Ctx& cx, uint64_t i)
           {
               auto& d = all_documents()[i / 16];
               V     r;
               bool  ok  = ref::parse(ref::dec(d), r) == ref::Ok;
               bool  bad = !d.empty() && !ref::dec(d).empty() && ref::dec(d).back() == ref::bad;
               for (uint64_t k = 0; k < 8; ++k)
               {
                   auto f   = flags_of((i % 16 * 8 + k) * 64 + 37);
                   auto loc = locales()[(i + k) % L];
                   parse_state<json, char>(cx, f, loc, d, say(f));
                   if (!bad)
                       parse_state<wjson, wchar_t>(cx, f, loc, d, say(f));
                   if (ok)
                   {
                       dump_flags<json, char>(cx, f, 6, loc, { r }, say(f));
                       dump_flags<wjson, wchar_t>(cx, f, 6, loc, { r }, say(f));
                   }
               }
           });
    ck.add("global locales", L * 2 * (texts.size() + values().size()), "every global locale, with the C library's set or not: parsing from strings, C strings and files, dumping to strings and adapters, wrapped structs", [L](mc::Ctx& cx, uint64_t i)
           {
               mc::Digits   d(i);
               GlobalLocale g(locales()[d(L)]);
               bool         c = d(2);
               if (c)
                   std::setlocale(LC_ALL, "C.UTF-8");
               size_t k = d(texts.size() + values().size());
               if (k < texts.size())
               {
                   check_parse<json, char>(cx, texts[k]);
                   check_parse<wjson, wchar_t>(cx, wide<wchar_t>(texts[k]));
                   check_parse<json, char32_t>(cx, wide<char32_t>(texts[k]));
                   V    want;
                   auto st = ref::parse(ref::dec(texts[k]), want);
                   std::string s = texts[k];
                   FILE*       f = fmemopen(&s[0], s.size(), "r");
                   json::value v;
                   Err         e = attempt([&] { v = json::parse<char>(f); });
                   std::fclose(f);
                   if (st == ref::Ok ? e || !ref::eq(from(v), want, ref::literal_cmp()) : e != deserialization)
                       cx.fail("parsing " + s + " from a file ended with " + name(e));
               }
               else
               {
                   auto& r = values()[k - texts.size()];
                   auto  v = to<json::value>(r);
                   auto  w = to<wjson::value>(r);
                   auto  t = text_of(r, Set());
                   cx.eval();
                   if (json::dump(v) != t || wjson::dump(w) != wide<wchar_t>(t) || json::dump<wchar_t>(v) != wide<wchar_t>(t))
                       cx.fail("dumping " + ref::show(r) + " gave " + mc::shows(json::dump(v)) + " instead of " + t);
                   struct A : configor::oadapter
                   {
                       std::string s;
                       using configor::oadapter::write;
                       void write(const char c) override { s += c; }
                   } a;
                   {
                       configor::oadapterstream os(a);
                       json::dump(os, v);
                   }
                   if (a.s != t)
                       cx.fail("dumping " + ref::show(r) + " to an adapter gave " + mc::shows(a.s));
                   Pair p;
                   p.a = 1234567;
                   std::ostringstream os;
                   os << json::wrap(p);
                   if (os.str() != "{\"a\":1234567,\"b\":0.5}")
                       cx.fail("inserting a struct gave " + os.str());
                   Pair               q;
                   std::istringstream is(os.str());
                   is >> json::wrap(q);
                   if (q.a != p.a || q.b != p.b)
                       cx.fail("extracting a struct gave another one");
                   if (json::value(1234567) != json::parse("1234567"))
                       cx.fail("a parsed number differs");
               }
               if (c)
                   std::setlocale(LC_ALL, "C");
           });
    // no state is carried from one part of a value to the next
    ck.add("carry-over", mc::words_upto(18, 3) * 2 * 4, "every array and object of up to 3 of 18 values, 4 float forms, with and without escaping: each part as it would be alone", [](mc::Ctx& cx, uint64_t i)
           {
               bool                     esc = i & 1;
               static const flags_t     fl[] = { flags_t(), ios::fixed, ios::scientific, ios::hex | ios::uppercase | ios::showbase };
               auto                     f = fl[i >> 1 & 3];
               std::vector<V>           vs;
               std::vector<std::pair<U, V>> ms;
               for (auto k : mc::word(18, i >> 3))
               {
                   vs.push_back(values()[k]);
                   ms.emplace_back(U(1, static_cast<char32_t>(U'a' + ms.size())) + U"\u00e9\x1f", values()[k]);
               }
               for (auto& r : { V::array(vs), V::object(ms) })
               {
                   std::ostringstream os;
                   os.flags(f);
                   json::dump(os, to<json::value>(r), { json::serializer_type<char>::with_unicode_escaping(esc) });
                   auto want = text_of(r, set_of(f, 6, esc));
                   cx.eval();
                   if (os.str() != want)
                       cx.fail("dumping " + ref::show(r) + " gave " + mc::shows(os.str()) + " instead of " + mc::shows(want));
                   std::wostringstream ws;
                   ws.flags(f);
                   json::dump(ws, to<json::value>(r), { json::serializer_type<wchar_t>::with_unicode_escaping(esc) });
                   if (ws.str() != wide<wchar_t>(want))
                       cx.fail("dumping " + ref::show(r) + " to a wide stream gave " + mc::shows(ws.str()) + " instead of " + mc::shows(want));
               }
               cx.outcome(i);
           });
    unsigned D = th ? 5 : 4;
    unsigned n = static_cast<unsigned>(out_ops().size());
    ck.add("output sequences", mc::words_upto(n, D), "every sequence of up to " + std::to_string(D) + " of " + std::to_string(n) + " operations on one output stream, the user's own among them", [n](mc::Ctx& cx, uint64_t i) { out_sequence(cx, mc::word(n, i)); });
    unsigned E = th ? 5 : 4;
    ck.add("input sequences", 216 * mc::words_upto(10, E), "every 3 of 6 documents ended by NULs, every sequence of up to " + std::to_string(E) + " of 10 operations on one input stream, the user's own among them", [](mc::Ctx& cx, uint64_t i)
           {
               uint64_t    k = i % 216;
               std::string t = segments[k % 6] + segments[k / 6 % 6] + segments[k / 36];
               in_sequence(cx, t, mc::word(10, i / 216));
           });
    ck.add("failed streams", 7 * 8 * 2 * 6 * 4 * 2, "every failed state, exception mask, width and white space flag: every wrapped operation does nothing but what a standard one does", [](mc::Ctx& cx, uint64_t i)
           {
               mc::Digits   d(i);
               static const ios::iostate bits[] = { ios::eofbit, ios::failbit, ios::badbit };
               auto mk = [](uint64_t m)
               {
                   ios::iostate s = ios::goodbit;
                   for (int k = 0; k < 3; ++k)
                       if (m >> k & 1)
                           s |= bits[k];
                   return s;
               };
               auto st = mk(d(7) + 1), mask = mk(d(8));
               int  w = d(2) ? 5 : 0, what = static_cast<int>(d(6));
               auto f = d(2) ? ios::skipws | ios::dec : ios::dec;
               f |= d(2) ? ios::unitbuf : flags_t();
               if (d(2))
                   failed<wjson, wchar_t>(cx, st, mask, w, what, f);
               else
                   failed<json, char>(cx, st, mask, w, what, f);
           });
    static const std::vector<std::string> u = { "\"\xc3\xa9\"", "[\"\xe4\xb8\xad\",1]", "\"\xf0\x9d\x84\x9e\"", "{\"\xc3\xa9\":\"\xc3\xa9\xc3\xa9\"}", "[1,2.5]", "\"\xc3\xa9", "//\xc3\xa9\n1" };
    ck.add("buffer locale", u.size() * 2, "wide files whose buffer converts from and to UTF-8 by a locale of its own, of the stream or not", [](mc::Ctx& cx, uint64_t i) { buffer_locale(cx, u[i / 2], i % 2); });
    return mc::run(ck, argc, argv);
}
