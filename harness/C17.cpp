// C17: every input source and output sink behaves like the plain string.
#include "trees.hpp"
#include "docs.hpp"
#include <clocale>
#include <iomanip>
#include <sstream>
using namespace cf;
using ref::U;
using ref::V;
template <class Ch>
using Str = std::basic_string<Ch>;

// ---- sources -----------------------------------------------------------------------------------
// a stream buffer that hands out the text in pieces of n characters; n = 0: unbuffered, through underflow and uflow
template <class Ch>
struct Source : std::basic_streambuf<Ch>
{
    using T = std::char_traits<Ch>;
    Str<Ch> t;
    size_t  n, at = 0;
    Source(const Str<Ch>& s, size_t k)
        : t(s)
        , n(k)
    {
    }
    typename T::int_type underflow() override
    {
        if (at >= t.size())
            return T::eof();
        if (!n)
            return T::to_int_type(t[at]);
        size_t k = std::min(n, t.size() - at);
        this->setg(&t[at], &t[at], &t[at] + k);
        at += k;
        return T::to_int_type(*this->gptr());
    }
    typename T::int_type uflow() override
    {
        if (n)
            return std::basic_streambuf<Ch>::uflow();
        return at >= t.size() ? T::eof() : T::to_int_type(t[at++]);
    }
};
// adapters: the end is NUL for ever or the eof unit; block reads by the base class or their own
template <class Ch>
struct InAdapter : configor::basic_iadapter<Ch>
{
    Str<Ch> t;
    size_t  at = 0;
    Ch      end;
    InAdapter(const Str<Ch>& s, bool nul)
        : t(s)
        , end(nul ? Ch(0) : static_cast<Ch>(std::char_traits<Ch>::eof()))
    {
    }
    Ch read() override { return at < t.size() ? t[at++] : end; }
    using configor::basic_iadapter<Ch>::read;
};
template <class Ch>
struct BlockAdapter : InAdapter<Ch>
{
    using InAdapter<Ch>::InAdapter;
    Ch   read() override { return InAdapter<Ch>::read(); }
    void read(Ch* s, size_t n) override
    {
        for (size_t i = 0; i < n; ++i)
            s[i] = this->at < this->t.size() ? this->t[this->at++] : this->end;
    }
};

struct Got
{
    Err e;
    V   v;
};
template <class F>
static Got got(F&& f)
{
    Got g;
    g.e = attempt([&] { g.v = from(f()); });
    return g;
}
template <class Json, class Ch>
static void sources(mc::Ctx& cx, const Str<Ch>& text, bool files = true)
{
    using Val = typename Json::value;
    Got  want = got([&] { return Json::parse(text); });
    auto same = [&](const char* how, const Got& g)
    {
        cx.eval();
        if (g.e != want.e || (!g.e && !ref::eq(g.v, want.v, ref::Cmp())))
            cx.fail("parsing " + mc::shows(text) + " from " + how + (g.e ? std::string(" ended with ") + name(g.e) : " gave " + ref::show(g.v)) + ", from a string it"
                    + (want.e ? std::string(" ends with ") + name(want.e) : " gives " + ref::show(want.v)));
    };
    const Val junk = to<Val>(V::array({ V::integer(1), V::object({ { U"old", V() } }) }));
    same("a string into a value", got([&] { Val v = junk; Json::parse(v, text); return v; }));
    if (text.find(Ch(0)) == Str<Ch>::npos)
    {
        same("a C string", got([&] { return Json::parse(text.c_str()); }));
        same("a C string into a value", got([&] { Val v = junk; Json::parse(v, text.c_str()); return v; }));
    }
    same("a string stream", got([&] { std::basic_istringstream<Ch> is(text); return Json::parse(is); }));
    same("a string stream into a value", got([&] { std::basic_istringstream<Ch> is(text); Val v = junk; Json::parse(v, is); return v; }));
    same("a stream positioned inside its text", got([&]
         {
             std::basic_istringstream<Ch> is(Str<Ch>(3, Ch('[')) + text);
             is.get(), is.get(), is.get();
             return Json::parse(is);
         }));
    for (size_t n : { 0, 1, 2, 3, 7 })
        same(("a buffer refilled every " + std::to_string(n)).c_str(), got([&] { Source<Ch> b(text, n); std::basic_istream<Ch> is(&b); return Json::parse(is); }));
    // extraction skips leading white space itself, and does nothing at the end of the input
    size_t k = 0;
    while (k < text.size() && std::isspace(text[k], std::locale::classic()))
        ++k;
    // (a skipped vertical tab or form feed is one the reader itself would refuse)
    if (k < text.size() && text.substr(0, k).find_first_of(Str<Ch>{ Ch(11), Ch(12) }) == Str<Ch>::npos)
    {
        same("a stream extraction", got([&] { std::basic_istringstream<Ch> is(text); Val v; is >> Json::wrap(v); return v; }));
        same("a stream extraction over a value", got([&] { Source<Ch> b(text, 1); std::basic_istream<Ch> is(&b); Val v = junk; is >> Json::wrap(v); return v; }));
        same("a stream extraction without skipping", got([&] { std::basic_istringstream<Ch> is(text); Val v; is >> std::noskipws >> Json::wrap(v); return v; }));
    }
    if constexpr (sizeof(Ch) == 1 || std::is_same<Ch, wchar_t>::value)
    {
        if (text.find(Ch(-1)) == Str<Ch>::npos)  // an adapter's end
        for (bool nul : { true, false })
        {
            same(nul ? "an adapter ending in NULs" : "an adapter ending in eof", got([&] { InAdapter<Ch> a(text, nul); configor::basic_iadapterstream<Ch> is(a); return Json::parse(is); }));
            same(nul ? "a block adapter ending in NULs" : "a block adapter ending in eof", got([&] { BlockAdapter<Ch> a(text, nul); configor::basic_iadapterstream<Ch> is(a); Val v = junk; Json::parse(v, is); return v; }));
        }
        if (files)
        {
            auto open = [&]
            {
                std::string bytes = sizeof(Ch) == 1 ? std::string(text.begin(), text.end()) : ref::utf8(ref::dec(text));
                FILE* f = std::tmpfile();
                if (!f)
                    throw mc::Fail{ "tmpfile" };
                if (::write(fileno(f), bytes.data(), bytes.size()) != static_cast<ssize_t>(bytes.size()) || ::lseek(fileno(f), 0, SEEK_SET))
                    throw mc::Fail{ "writing a temporary file" };
                return f;
            };
            FILE* f = open();
            same("a FILE", got([&] { return Json::template parse<Ch>(f); }));
            std::fclose(f);
            f = open();
            std::setvbuf(f, nullptr, _IONBF, 0);
            same("an unbuffered FILE into a value", got([&] { Val v = junk; Json::template parse<Ch>(v, f); return v; }));
            std::fclose(f);
        }
    }
    cx.outcome(want.e ? want.e : shape_hash(want.v));
}

// ---- encodings of the user's own ------------------------------------------------------------------
// every character is written twice, and read in one of several ways a stream offers; each must see the same characters
template <class Ch, int Way>
struct Twice
{
    using T  = std::char_traits<Ch>;
    using In = std::basic_istream<Ch>;
    static bool decode(In& is, uint32_t& cp)
    {
        Ch              b[2] = { Ch(0), Ch(1) };
        std::streamsize n    = 0;
        switch (Way)
        {
        case 0:
            is.read(b, 2);
            n = is.gcount();
            break;
        case 1:
            if (is.good() && !T::eq_int_type(is.peek(), T::eof()))
            {
                is.read(b, 2);
                n = is.gcount();
            }
            break;
        case 2:
            if (auto c = is.get(); !is.eof())
            {
                b[0] = T::to_char_type(c);
                n    = 1;
                is.read(b + 1, 1);
                n += is.gcount();
            }
            break;
        case 3:
            if (is.good() && !T::eq_int_type(is.peek(), T::eof()))
            {
                n = is.rdbuf()->sgetn(b, 1);
                if (!T::eq_int_type(is.peek(), T::eof()))
                    n += is.rdbuf()->sgetn(b + 1, 1);
            }
            break;
        case 4:
            if (auto c = is.get(); !is.eof())
            {
                b[0] = b[1] = T::to_char_type(c);
                n           = 1;
                is.ignore(1);
                n += is.gcount();
            }
            break;
        case 5:
            if (is >> b[0])
            {
                n = 1;
                if (is >> b[1])
                    n = 2;
            }
            is.clear(is.rdstate() & ~std::ios_base::failbit);
            break;
        }
        if (n == 0)
        {
            is.setstate(std::ios_base::eofbit);
            return false;
        }
        cp = static_cast<uint32_t>(static_cast<typename std::make_unsigned<Ch>::type>(b[0]));
        if (n != 2 || b[0] != b[1])
            is.setstate(std::ios_base::failbit);
        return true;
    }
    static void encode(std::basic_ostream<Ch>& os, uint32_t cp)
    {
        const Ch b[2] = { static_cast<Ch>(cp), static_cast<Ch>(cp) };
        if (Way == 0)
            os.write(b, 2);
        else if (Way == 1)
            os.put(b[0]).put(b[1]);
        else if (Way == 2)
            os << b[0] << b[1];
        else if (Way == 3)
            os.put(b[0]).write(b + 1, 1);
        else
            os << Str<Ch>(b, 2);
    }
};
template <int Way>
struct Way_
{
    template <class Ch>
    using enc = Twice<Ch, Way>;
};
template <class Json, class Ch, int Way>
static void twice(mc::Ctx& cx, const Str<Ch>& text)
{
    using P = typename Json::parser;
    using S = typename Json::serializer;
    using Val = typename Json::value;
    Str<Ch> t;
    for (auto c : text)
        t.append(2, c);
    const Got want = got([&] { return Json::template parse<Ch>(text, { P::template with_encoding<configor::encoding::ignore>() }); });
    auto      same = [&](const char* how, auto&& f)
    {
        Got g = got(f);
        cx.eval();
        if (g.e != want.e || (!g.e && !ref::eq(g.v, want.v, ref::Cmp())))
            cx.fail("parsing " + mc::shows(t) + " from " + how + " in an encoding that reads in way " + std::to_string(Way) + (g.e ? std::string(" ended with ") + name(g.e) : " gave " + ref::show(g.v)) + ", the plain text "
                    + (want.e ? std::string("ends with ") + name(want.e) : "gives " + ref::show(want.v)));
    };
    const auto own  = P::template with_source_encoding<Way_<Way>::template enc>();
    const auto tgt  = P::template with_target_encoding<configor::encoding::ignore>();
    same("a string", [&] { return Json::template parse<Ch>(t, { own, tgt }); });
    if (t.find(Ch(0)) == Str<Ch>::npos)
        same("a C string", [&] { return Json::template parse<Ch>(t.c_str(), { own, tgt }); });
    for (size_t n : { 0, 1, 3 })
        same("a stream", [&] { Source<Ch> b(t, n); std::basic_istream<Ch> is(&b); return Json::parse(is, { own, tgt }); });
    same("a string stream", [&] { std::basic_istringstream<Ch> is(t); return Json::parse(is, { own, tgt }); });
    if (t.find(Ch(-1)) == Str<Ch>::npos)
    {
        for (bool nul : { true, false })
        {
            same("an adapter", [&] { InAdapter<Ch> a(t, nul); configor::basic_iadapterstream<Ch> is(a); return Json::parse(is, { own, tgt }); });
            same("a block adapter", [&] { BlockAdapter<Ch> a(t, nul); configor::basic_iadapterstream<Ch> is(a); return Json::parse(is, { own, tgt }); });
        }
    }
    for (bool buffered : { true, false })
    {
        std::string bytes(t.begin(), t.end());  // wide texts here are ASCII
        FILE*       f = std::tmpfile();
        if (!f)
            throw mc::Fail{ "tmpfile" };
        if (!buffered)
            std::setvbuf(f, nullptr, _IONBF, 0);
        if (::write(fileno(f), bytes.data(), bytes.size()) != static_cast<ssize_t>(bytes.size()) || ::lseek(fileno(f), 0, SEEK_SET))
            throw mc::Fail{ "writing a temporary file" };
        same("a FILE", [&] { return Json::template parse<Ch>(f, { own, tgt }); });
        std::fclose(f);
    }
    // a value whose strings are in the encoding, read by the serializer
    {
        Val a = text, b = t;
        auto dump = [&](const Val& v, auto opt) { std::string r; Str<Ch> x; if (auto e = attempt([&] { x = Json::template dump<Ch>(v, { opt, S::template with_target_encoding<configor::encoding::ignore>() }); })) return std::string(name(e)); return mc::shows(x); };
        auto w = dump(a, S::template with_source_encoding<configor::encoding::ignore>()), g = dump(b, S::template with_source_encoding<Way_<Way>::template enc>());
        cx.eval();
        if (w != g)
            cx.fail("dumping the string " + mc::shows(t) + " read in way " + std::to_string(Way) + " gives " + g + ", the plain string gives " + w);
    }
    // strings are made in the encoding by the parser (but for the two-character escapes, which it writes as such)
    {
        Got g = got([&] { return Json::template parse<Ch>(text, { P::template with_source_encoding<configor::encoding::ignore>(), P::template with_target_encoding<Way_<Way>::template enc>() }); });
        cx.eval();
        if (g.e != want.e)
            cx.fail("parsing " + mc::shows(text) + " into an encoding written in way " + std::to_string(Way) + " ends differently");
        if (!g.e && want.v.k == ref::Str)
        {
            U d;
            for (auto c : want.v.s)
                d.append(2, c);
            if (d != g.v.s)
                cx.fail("a string made in an encoding written in way " + std::to_string(Way) + " is " + mc::shows(g.v.s) + ", not " + mc::shows(d));
        }
    }
    cx.outcome(want.e ? want.e : shape_hash(want.v));
}
template <class Json, class Ch>
static void twice_all(mc::Ctx& cx, const Str<Ch>& t)
{
    twice<Json, Ch, 0>(cx, t);
    twice<Json, Ch, 1>(cx, t);
    twice<Json, Ch, 2>(cx, t);
    twice<Json, Ch, 3>(cx, t);
    twice<Json, Ch, 4>(cx, t);
    twice<Json, Ch, 5>(cx, t);
}

// ---- sinks -------------------------------------------------------------------------------------
template <class Ch>
struct Sink : std::basic_streambuf<Ch>
{
    using T = std::char_traits<Ch>;
    Str<Ch> t;
    Ch      buf[8];
    size_t  n;
    bool    block;  // takes blocks at once instead of character by character
    Sink(size_t k, bool b)
        : n(k)
        , block(b)
    {
        if (n)
            this->setp(buf, buf + n);
    }
    void drain()
    {
        t.append(this->pbase(), static_cast<size_t>(this->pptr() - this->pbase()));
        if (n)
            this->setp(buf, buf + n);
    }
    typename T::int_type overflow(typename T::int_type c) override
    {
        drain();
        if (!T::eq_int_type(c, T::eof()))
            t.push_back(T::to_char_type(c));
        return T::not_eof(c);
    }
    int sync() override
    {
        drain();
        return 0;
    }
    std::streamsize xsputn(const Ch* s, std::streamsize k) override
    {
        if (!block)
            return std::basic_streambuf<Ch>::xsputn(s, k);
        drain();
        t.append(s, static_cast<size_t>(k));
        return k;
    }
    Str<Ch> all()
    {
        drain();
        return t;
    }
};
template <class Ch>
struct OutAdapter : configor::basic_oadapter<Ch>
{
    Str<Ch> t;
    void    write(const Ch c) override { t.push_back(c); }
    using configor::basic_oadapter<Ch>::write;
};
template <class Ch>
struct OutBlock : OutAdapter<Ch>
{
    void write(const Ch c) override { this->t.push_back(c); }
    void write(const Ch* s, std::size_t n) override { this->t.append(s, n); }
};
template <class Json, class Ch, class D>
static void sink_set(mc::Ctx& cx, const V& r, const char* opts, D&& dump_to, const Str<Ch>& want, bool plain)
{
    using Val   = typename Json::value;
    const Val v = to<Val>(r);
    auto same   = [&](const char* how, const Str<Ch>& g)
    {
        cx.eval();
        if (g != want)
            cx.fail("dumping " + ref::show(r) + opts + " to " + how + " wrote " + mc::shows(g) + ", as a string it is " + mc::shows(want));
    };
    {
        std::basic_ostringstream<Ch> os;
        dump_to(os);
        same("a string stream", os.str());
        dump_to(os);
        same("a string stream again", os.str().substr(want.size()));
    }
    for (size_t n : { 0, 1, 3, 8 })
        for (bool b : { false, true })
        {
            Sink<Ch>                s(n, b);
            std::basic_ostream<Ch> os(&s);
            dump_to(os);
            same("a custom stream buffer", s.all());
        }
    {
        OutAdapter<Ch>                      a;
        configor::basic_oadapterstream<Ch> os(a);
        dump_to(os);
        same("an adapter", a.t);
        OutBlock<Ch>                        b;
        configor::basic_oadapterstream<Ch> ob(b);
        dump_to(ob);
        same("a block adapter", b.t);
    }
    if (plain)
    {
        std::basic_ostringstream<Ch> os;
        os << Json::wrap(v);
        same("a wrapped stream insertion", os.str());
        OutAdapter<Ch>                      a;
        configor::basic_oadapterstream<Ch> oa(a);
        oa << Json::wrap(v);
        same("a wrapped adapter insertion", a.t);
        Sink<Ch>                s(3, false);
        std::basic_ostream<Ch> ob(&s);
        Val                     w = v;
        ob << Json::wrap(w);
        same("a wrapped insertion of a variable", s.all());
    }
    cx.outcome(mc::hash(want.data(), want.size() * sizeof(Ch)));
}
template <class Json, class Ch>
static void sinks_of(mc::Ctx& cx, const V& r)
{
    using Val   = typename Json::value;
    using S     = typename Json::template serializer_type<Ch>;
    const Val v = to<Val>(r);
    sink_set<Json, Ch>(cx, r, "", [&](auto& os) { Json::dump(os, v); }, Json::template dump<Ch>(v), true);
    {
        Str<Ch> s;
        Json::template dump<Ch>(s, v);
        cx.eval();
        if (s != Json::template dump<Ch>(v))
            cx.fail("dumping " + ref::show(r) + " into a given string gave " + mc::shows(s));
    }
    sink_set<Json, Ch>(cx, r, " with an indent", [&](auto& os) { Json::dump(os, v, { S::with_indent(2, Ch('\t')) }); }, Json::template dump<Ch>(v, { S::with_indent(2, Ch('\t')) }), false);
    sink_set<Json, Ch>(cx, r, " with escaping", [&](auto& os) { Json::dump(os, v, { S::with_unicode_escaping(true), S::with_precision(12) }); },
                       Json::template dump<Ch>(v, { S::with_unicode_escaping(true), S::with_precision(12) }), false);
}

// ---- adapter streams against standard streams --------------------------------------------------
// every sequence of `depth` operations on an adapter stream and on a string stream over the same text
template <class Ch>
struct Reader
{
    static constexpr unsigned kinds = 17;
    static std::string        name(unsigned op)
    {
        static const char* n[] = { "get()", "get(c)", "peek()", "read(s,0)", "read(s,1)", "read(s,2)", "read(s,4)", "ignore(1)", "ignore(2)", "getline(s,3)", "rdbuf()->sgetc()", "rdbuf()->sbumpc()",
                                   "rdbuf()->snextc()", "rdbuf()->sgetn(s,2)", ">> noskipws >> c", ">> ws", "clear()" };
        return n[op];
    }
    static std::string run(std::basic_istream<Ch>& is, unsigned op)
    {
        using T = std::char_traits<Ch>;
        Ch                 b[8];
        std::ostringstream o;
        std::fill(b, b + 8, Ch('~'));
        auto unit = [](Ch c) { return static_cast<unsigned long>(typename std::make_unsigned<Ch>::type(c)); };
        auto i    = [&](typename T::int_type c) { T::eq_int_type(c, T::eof()) ? o << "eof " : o << static_cast<long long>(c) << ' '; };
        auto s    = [&](std::streamsize n = 8) { for (Ch* c = b; c < b + n; ++c) o << unit(*c) << ','; };
        switch (op)
        {
        case 0: i(is.get()); break;
        case 1: is.get(b[0]); s(); break;
        case 2: i(is.peek()); break;
        case 3: is.read(b, 0); s(is.gcount()); break;
        case 4: is.read(b, 1); s(is.gcount()); break;
        case 5: is.read(b, 2); s(is.gcount()); break;
        case 6: is.read(b, 4); s(is.gcount()); break;
        case 7: is.ignore(1); break;
        case 8: is.ignore(2); break;
        case 9: is.getline(b, 3); s(); break;
        case 10: i(is.rdbuf()->sgetc()); break;
        case 11: i(is.rdbuf()->sbumpc()); break;
        case 12: i(is.rdbuf()->snextc()); break;
        case 13: { auto n = is.rdbuf()->sgetn(b, 2); o << n << ' '; s(n); break; }
        case 14: is >> std::noskipws >> b[0]; s(); break;
        case 15: is >> std::ws; break;
        case 16: is.clear(); break;
        }
        o << " n=" << (op >= 10 && op != 14 ? 0 : is.gcount()) << " state=" << is.rdstate();
        return o.str();
    }
};
template <class Ch>
static Str<Ch> in_text(uint64_t i)
{
    static const Ch a[] = { Ch('a'), Ch(0), Ch(0xE9), Ch('\n'), Ch(' ') };
    Str<Ch>         t;
    for (auto k : mc::word(5, i))
        t.push_back(a[k]);
    return t;
}
template <class Ch, class Ad>
static void read_ops(mc::Ctx& cx, const Str<Ch>& text, uint64_t seq, unsigned depth)
{
    Ad                                  a(text, false);
    configor::basic_iadapterstream<Ch> got(a);
    std::basic_istringstream<Ch>       want(text);
    std::string                         trail;
    for (unsigned d = 0; d < depth; ++d, seq /= Reader<Ch>::kinds)
    {
        unsigned op = seq % Reader<Ch>::kinds;
        auto     g = Reader<Ch>::run(got, op), w = Reader<Ch>::run(want, op);
        trail += Reader<Ch>::name(op) + "; ";
        cx.transition();
        if (g != w)
            cx.fail("over " + mc::shows(text) + " after " + trail + "the adapter stream gave " + g + ", a standard stream gives " + w);
    }
    cx.eval();
    cx.trace();
    cx.outcome(mc::hash(trail));
}
template <class Ch>
struct Writer
{
    static constexpr unsigned kinds = 13;
    static std::string        name(unsigned op)
    {
        static const char* n[] = { "put(a)", "put(NUL)", "put(0xE9)", "write(s,0)", "write(s,1)", "write(s,3)", "<< c", "<< \"st\"", "<< 42", "<< setw(4) << 'x'", "flush()", "rdbuf()->sputc(b)", "rdbuf()->sputn(s,2)" };
        return n[op];
    }
    static std::string run(std::basic_ostream<Ch>& os, unsigned op)
    {
        static const Ch    s[] = { Ch('x'), Ch(0), Ch(0xFE), Ch('\n'), Ch(0) };
        static const Ch    st[] = { Ch('s'), Ch('t'), Ch(0) };
        std::ostringstream o;
        switch (op)
        {
        case 0: os.put(Ch('a')); break;
        case 1: os.put(Ch(0)); break;
        case 2: os.put(Ch(0xE9)); break;
        case 3: os.write(s, 0); break;
        case 4: os.write(s, 1); break;
        case 5: os.write(s, 3); break;
        case 6: os << Ch('c'); break;
        case 7: os << st; break;
        case 8: os << 42; break;
        case 9: os << std::setw(4) << Ch('x'); break;
        case 10: os.flush(); break;
        case 11: o << static_cast<long long>(os.rdbuf()->sputc(Ch('b'))); break;
        case 12: o << os.rdbuf()->sputn(s, 2); break;
        }
        o << " state=" << os.rdstate();
        return o.str();
    }
};
template <class Ch, class Ad>
static void write_ops(mc::Ctx& cx, uint64_t seq, unsigned depth)
{
    Ad                                  a;
    configor::basic_oadapterstream<Ch> got(a);
    std::basic_ostringstream<Ch>       want;
    std::string                         trail;
    for (unsigned d = 0; d < depth; ++d, seq /= Writer<Ch>::kinds)
    {
        unsigned op = seq % Writer<Ch>::kinds;
        auto     g = Writer<Ch>::run(got, op), w = Writer<Ch>::run(want, op);
        trail += Writer<Ch>::name(op) + "; ";
        cx.transition();
        if (g != w || a.t != want.str())
            cx.fail("after " + trail + "the adapter received " + mc::shows(a.t) + " (" + g + "), a standard stream holds " + mc::shows(want.str()) + " (" + w + ")");
    }
    cx.eval();
    cx.trace();
    cx.outcome(mc::hash(trail));
}
// one block of any size through an adapter stream, both ways, with single characters and short blocks around it
template <class Ch>
static Ch nth(size_t i) { return static_cast<Ch>(i % 61 == 60 ? 0 : 1 + i % 97); }
template <class Ch, class Out, class In>
static void blocks(mc::Ctx& cx, size_t n)
{
    Str<Ch> s;
    for (size_t i = 0; i < n; ++i)
        s.push_back(nth<Ch>(i));
    for (int way = 0; way < 3; ++way)
    {
        Out                                 a;
        configor::basic_oadapterstream<Ch> os(a);
        std::basic_ostringstream<Ch>       want;
        for (std::basic_ostream<Ch>* o : { static_cast<std::basic_ostream<Ch>*>(&os), static_cast<std::basic_ostream<Ch>*>(&want) })
        {
            o->put(Ch('<'));
            if (way == 0)
                o->write(s.data(), static_cast<std::streamsize>(n));
            else if (way == 1)
                *o << s;
            else
                o->rdbuf()->sputn(s.data(), static_cast<std::streamsize>(n));
            o->write(s.data(), static_cast<std::streamsize>(n / 3));
            *o << Ch('>');
        }
        cx.eval();
        if (a.t != want.str() || os.rdstate() != want.rdstate())
            cx.fail("writing a block of " + std::to_string(n) + " in way " + std::to_string(way) + " gave the adapter " + std::to_string(a.t.size()) + " characters, or other ones than the " + std::to_string(want.str().size()) + " written");
    }
    for (size_t more : { size_t(0), size_t(1), n / 2 + 2 })  // what the adapter has beyond the block
        for (int way = 0; way < 3; ++way)
        {
            Str<Ch> t = s;
            for (size_t i = 0; i < more; ++i)
                t.push_back(nth<Ch>(n + i));
            std::string saw[2];
            Str<Ch>     data[2];
            for (int k = 0; k < 2; ++k)
            {
                In                                  a(t, false);
                configor::basic_iadapterstream<Ch> ad(a);
                std::basic_istringstream<Ch>       st(t);
                std::basic_istream<Ch>&            is = k ? static_cast<std::basic_istream<Ch>&>(st) : ad;
                Str<Ch>                             b(n + 2, Ch('#'));
                if (way == 1)
                    saw[k] += std::to_string(is.peek()) + " ";
                if (way == 2 && n)
                {
                    is.read(&b[0], 1);
                    is.read(&b[1], static_cast<std::streamsize>(n - 1));
                    saw[k] += std::to_string(is.gcount()) + " ";
                }
                else
                    is.read(&b[0], static_cast<std::streamsize>(n));
                saw[k] += std::to_string(is.gcount()) + "/" + std::to_string(is.rdstate());
                is.read(&b[n], 2);
                saw[k] += " " + std::to_string(is.gcount()) + "/" + std::to_string(is.rdstate());
                b.resize(n + static_cast<size_t>(is.gcount()));
                data[k] = b;
            }
            cx.eval();
            if (saw[0] != saw[1] || data[0] != data[1])
                cx.fail("reading a block of " + std::to_string(n) + " of " + std::to_string(t.size()) + " characters in way " + std::to_string(way) + " saw " + saw[0] + " or other characters, a standard stream " + saw[1]);
        }
    cx.outcome(n);
}
static uint64_t power(uint64_t b, unsigned e) { return e ? b * power(b, e - 1) : 1; }

int main(int argc, char** argv)
{
    std::setlocale(LC_CTYPE, "C.UTF-8");  // for wide FILEs
    mc::Check ck;
    ck.id   = "C17";
    ck.part = "main";
    ck.mem_mb = 0;
    bool th = mc::is_thorough(argc, argv);
    ck.rule = "every text of the stated token words through every source, every value tree through every sink, compared with the plain string; every sequence of stream operations on adapter streams compared with "
              "string streams over the same text; a case is distinct by result";
    ck.assumptions = { "an adapter's eof unit ((char)-1) is its end, not a character", "the parse from a string is the reference here; C01 to C05 decide what it gives" };

    static const bool mc_th = th;
    static const std::vector<std::string> tok = { "[", "]", "{", "}", ",", ":", "1", "-0.5e1", "true", "\"a\\n\"", "\"\xc3\xa9\xf0\x9d\x84\x9e\"", " ", "/*x*/", "//y\n", std::string(1, '\0'), "\x80", "\xc3", "null", "\"\\ud834\\udd1e\"", "x" };
    static unsigned N = static_cast<unsigned>(tok.size());
    ck.add("sources", mc::words_upto(N, th ? 4 : 3), "every word of up to " + std::string(th ? "4" : "3") + " of 20 tokens from 20 narrow sources", [](mc::Ctx& cx, uint64_t i)
           {
               std::string t;
               for (auto k : mc::word(N, i))
                   t += tok[k];
               sources<json, char>(cx, t, i % 4 == 0 || i < 500);
           });
    // every byte, and every pair of a lead and another byte, in every kind of place
    static const std::vector<std::pair<std::string, std::string>> around = { { "", "" }, { "", "[1]" }, { "[1]", "" }, { "[1,", "]" }, { "\"a", "\"" }, { "{\"", "\":1}" }, { "/*", "*/1" }, { "//", "\n1" }, { "-", "" }, { "1", "2" }, { "\"\\u00", "9\"" }, { "tru", "" } };
    ck.add("bytes", (256 + (th ? 65536 : 4096)) * around.size(), "every byte and " + std::string(th ? "every pair" : "every pair of 64 x 64 spread") + " of bytes in 12 places from every narrow source, files included", [](mc::Ctx& cx, uint64_t i)
           {
               uint64_t    k = i / around.size();
               auto&       p = around[i % around.size()];
               std::string m;
               if (k < 256)
                   m = std::string(1, static_cast<char>(k));
               else if (k -= 256; mc_th)
                   m = { static_cast<char>(k >> 8), static_cast<char>(k) };
               else
                   m = { static_cast<char>(3 - 4 * (k >> 6)), static_cast<char>(255 - 4 * (k & 63)) };
               sources<json, char>(cx, p.first + m + p.second, i < 256 * around.size() || k % 16 == 0);
               if (i < 256 * around.size())
                   sources<wjson, char>(cx, p.first + m + p.second, true);
           });
    ck.add("wide sources", mc::words_upto(N, th ? 4 : 3), "every word of tokens from 20 wide, 16 bit and 32 bit sources", [](mc::Ctx& cx, uint64_t i)
           {
               std::string t;
               bool        good = true;
               for (auto k : mc::word(N, i))
               {
                   t += tok[k];
                   good = good && tok[k] != "\x80" && tok[k] != "\xc3";
               }
               std::wstring   w;
               std::u16string s;
               std::u32string u;
               if (good)
               {
                   U p = ref::dec(t);
                   w = ref::enc<wchar_t>(p), s = ref::enc<char16_t>(p), u = ref::enc<char32_t>(p);
               }
               else  // lone surrogates in their place
                   for (unsigned char c : t)
                   {
                       w.push_back(c < 128 ? c : 0xD800);
                       s.push_back(c < 128 ? c : 0xD800);
                       u.push_back(c < 128 ? c : 0xD800);
                   }
               sources<wjson, wchar_t>(cx, w, good && (i % 4 == 0 || i < 500));
               sources<json, wchar_t>(cx, w, false);
               sources<wjson, char>(cx, t, false);
           });
    ck.add("other sources", mc::words_upto(N, 2), "every word of up to 2 tokens from 16 and 32 bit streams", [](mc::Ctx& cx, uint64_t i)
           {
               U p;
               for (auto k : mc::word(N, i))
                   for (auto c : tok[k] == "\x80" || tok[k] == "\xc3" ? U(1, 0xDC00) : ref::dec(tok[k]))
                       p.push_back(c);
               std::u16string s = ref::enc<char16_t>(p);
               std::u32string u;
               for (auto c : p)
                   u.push_back(c);
               auto judge = [&](auto text)
               {
                   using Ch = typename decltype(text)::value_type;
                   Got a = got([&] { return json::parse(text); }), b = got([&] { Source<Ch> s(text, 0); std::basic_istream<Ch> is(&s); return json::parse(is); }),
                       c = got([&] { Source<Ch> s(text, 2); std::basic_istream<Ch> is(&s); json::value v; json::parse(v, is); return v; }), d = a;
                   if (text.find(Ch(0)) == Str<Ch>::npos)
                       d = got([&] { return json::parse(text.c_str()); });
                   cx.eval(4);
                   for (auto* x : { &b, &c, &d })
                       if (x->e != a.e || !ref::eq(x->v, a.v, ref::Cmp()))
                           cx.fail("parsing " + mc::shows(text) + " differs by source");
                   cx.outcome(a.e ? a.e : shape_hash(a.v));
               };
               judge(s);
               judge(u);
           });
    ck.add("documents", all_documents().size(), "documents with every kind of token, escape, number, character and error, from every source, narrow, wide and across widths, and in an encoding of the user's own", [](mc::Ctx& cx, uint64_t i)
           {
               auto& d = all_documents()[i];
               auto  w = wide_document<wchar_t>(d);
               sources<json, char>(cx, d);
               sources<wjson, char>(cx, d);
               sources<wjson, wchar_t>(cx, w, w.empty() || w.back() != 0xD800);
               sources<json, wchar_t>(cx, w, false);
               for (char c : d)
                   if (c == '\\' || c & 0x80)  // the encoding is one for ASCII, and two-character escapes are written as they are
                       return;
               twice_all<json, char>(cx, d);
               twice_all<wjson, wchar_t>(cx, w);
           }, 120, 4);
    static const std::vector<std::string> plain = { "[", "]", "{", "}", ",", ":", "17", "-0.5e1", "true", "\"a\\u000a\"", "\"\n\"", " \n ", "/*x*/", "//y\n", std::string(1, '\0'), "null", "x", "\"\"" };
    static unsigned PN = static_cast<unsigned>(plain.size());
    ck.add("own encodings", mc::words_upto(PN, th ? 4 : 3), "every word of up to " + std::string(th ? "4" : "3") + " of 18 tokens written in an encoding of the user's own that takes its characters from the stream in 6 ways, from 11 narrow and wide sources", [](mc::Ctx& cx, uint64_t i)
           {
               std::string t;
               for (auto k : mc::word(PN, i))
                   t += plain[k];
               twice_all<json, char>(cx, t);
               if (i % 4 == 0 || i < 400)
                   twice_all<wjson, wchar_t>(cx, std::wstring(t.begin(), t.end()));
           });
    // long texts: across the buffers of files and streams
    ck.add("long sources", th ? 600 : 150, "an array of strings and numbers of growing length, each size from every source", [](mc::Ctx& cx, uint64_t i)
           {
               std::string t = "[";
               for (uint64_t k = 0; k < i * i / 4; ++k)
                   t += (k ? ",\"" : "\"") + std::string(k % 5, 'q') + "\xc3\xa9\"," + std::to_string(k * 7919) + (k % 3 ? "" : "\n//c\n");
               t += "]";
               sources<json, char>(cx, t);
               sources<wjson, wchar_t>(cx, ref::enc<wchar_t>(ref::dec(t)));
           });
    ck.add("large sources", mc::big_sizes * 3, "a string, white space or an array of 12 sizes up to 131073, from every source", [](mc::Ctx& cx, uint64_t i)
           {
               size_t      n = mc::size_at(i / 3, 0);
               std::string t = i % 3 == 0 ? "[\"" + std::string(n, 'q') + "\",1]" : i % 3 == 1 ? "[" + std::string(n, n % 2 ? ' ' : '\n') + "1]" : "[";
               if (i % 3 == 2)
               {
                   for (size_t k = 0; k < n / 4; ++k)
                       t += "1,\n";
                   t += "2]";
               }
               sources<json, char>(cx, t);
               sources<wjson, wchar_t>(cx, ref::enc<wchar_t>(ref::dec(t)));
           }, 300, 1);
    static trees::Space sp;
    sp.leaves = { V(), V::boolean(true), V::integer(-12), V::floating(0.5), V::floating(1e300), V::string(U""), V::string(U(1, 0) + U"\"\u00e9\U0001d11e/\n\x7f") };
    sp.keys   = { U"", U"\u00e9\\" };
    sp.build(th ? 5 : 4);
    ck.add("sinks", sp.size(), "every tree of weight up to " + std::string(th ? "5" : "4") + " to 15 sinks under three option sets, narrow and wide", [](mc::Ctx& cx, uint64_t i)
           {
               V r = sp[i];
               sinks_of<json, char>(cx, r);
               sinks_of<wjson, wchar_t>(cx, r);
               if (i % 8 == 0)
               {
                   sinks_of<json, wchar_t>(cx, r);
                   sinks_of<wjson, char>(cx, r);
               }
           });
    ck.add("values", all_values().size(), "the values of the well-formed documents, to every sink", [](mc::Ctx& cx, uint64_t i)
           {
               auto& r = all_values()[i];
               sinks_of<json, char>(cx, r);
               sinks_of<wjson, wchar_t>(cx, r);
               sinks_of<json, wchar_t>(cx, r);
               sinks_of<wjson, char>(cx, r);
           });
    ck.add("long sinks", 200 + mc::big_sizes, "arrays and strings of every length 0..199 times 37 and of 12 lengths up to 131073", [](mc::Ctx& cx, uint64_t i)
           {
               if (i >= 200)
               {
                   uint64_t n = mc::size_at(i - 200, 0);
                   V        a = V::array();
                   a.a.assign(n / 4, V::integer(7));
                   sinks_of<json, char>(cx, a);
                   sinks_of<wjson, wchar_t>(cx, a);
                   sinks_of<json, char>(cx, V::string(U(n, U'x')));
                   sinks_of<wjson, wchar_t>(cx, V::string(U(n, U'\u00e9')));
                   return;
               }
               V a = V::array();
               for (uint64_t k = 0; k < i; ++k)
                   a.a.push_back(V::integer(static_cast<int64_t>(k)));
               sinks_of<json, char>(cx, a);
               sinks_of<wjson, wchar_t>(cx, a);
               sinks_of<json, char>(cx, V::string(U(i * 37, U'\u00e9')));
           });
    static unsigned rd = th ? 4 : 3, tl = th ? 4 : 3;
    ck.add("read operations", power(17, rd) * mc::words_upto(5, tl), "every sequence of " + std::to_string(rd) + " of 17 operations on an input adapter stream over every text of up to " + std::to_string(tl) + " of 5 characters, narrow and wide",
           [](mc::Ctx& cx, uint64_t i)
           {
               uint64_t n = mc::words_upto(5, tl), t = i % n, s = i / n;
               read_ops<char, InAdapter<char>>(cx, in_text<char>(t), s, rd);
               read_ops<char, BlockAdapter<char>>(cx, in_text<char>(t), s, rd);
               read_ops<wchar_t, InAdapter<wchar_t>>(cx, in_text<wchar_t>(t), s, rd);
               read_ops<wchar_t, BlockAdapter<wchar_t>>(cx, in_text<wchar_t>(t), s, rd);
           });
    // deeper, over one text that has all kinds of characters
    static unsigned ld = th ? 6 : 5;
    ck.add("long read operations", power(17, ld), "every sequence of " + std::string(th ? "6" : "5") + " of 17 operations over a text of 7 characters", [](mc::Ctx& cx, uint64_t i)
           {
               static const std::string t("a\0\xe9\n \0z", 7);
               read_ops<char, InAdapter<char>>(cx, t, i, ld);
           });
    static unsigned wd = th ? 6 : 5;
    ck.add("write operations", power(13, wd), "every sequence of " + std::to_string(wd) + " of 13 operations on an output adapter stream", [](mc::Ctx& cx, uint64_t i)
           {
               write_ops<char, OutAdapter<char>>(cx, i, wd);
               write_ops<char, OutBlock<char>>(cx, i, wd);
               write_ops<wchar_t, OutAdapter<wchar_t>>(cx, i, wd);
           });
    static const uint64_t bn = th ? 16500 : 4400;
    ck.add("blocks", bn + mc::big_sizes, "one block of every size below " + std::to_string(bn) + " and of 12 sizes up to 131073 written and read in 3 ways, narrow and wide", [](mc::Ctx& cx, uint64_t i)
           {
               size_t n = i < bn ? i : mc::size_at(i - bn, 0);
               blocks<char, OutAdapter<char>, InAdapter<char>>(cx, n);
               blocks<char, OutBlock<char>, BlockAdapter<char>>(cx, n);
               if (i % 16 < 2)
               {
                   blocks<wchar_t, OutAdapter<wchar_t>, InAdapter<wchar_t>>(cx, n);
                   blocks<wchar_t, OutBlock<wchar_t>, BlockAdapter<wchar_t>>(cx, n);
               }
           });
    return mc::run(ck, argc, argv);
}
