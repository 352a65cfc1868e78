// C19: an I/O failure is reported, never taken for success or for the end.
#include "trees.hpp"
#include "docs.hpp"
#include <clocale>
#include <fcntl.h>
#include <unistd.h>
#include <sstream>
using namespace cf;
using ref::U;
using ref::V;
using configor::error_handler_with;
using configor::error_policy;
template <class Ch>
using Str = std::basic_string<Ch>;

[[noreturn]] static void boom(int how)
{
    switch (how)
    {
    case 0: throw std::runtime_error("device");
    case 1: throw std::ios_base::failure("device");
    default: throw 42;
    }
}
// ---- sources that fail at unit `at` ------------------------------------------------------------
template <class Ch>
struct Source : std::basic_streambuf<Ch>
{
    using T = std::char_traits<Ch>;
    Str<Ch> t;
    size_t  fault, chunk, pos = 0;
    int     how;
    bool    once, done = false;
    Source(const Str<Ch>& s, size_t f, size_t c, int h, bool o)
        : t(s)
        , fault(f)
        , chunk(c)
        , how(h)
        , once(o)
    {
    }
    void check()
    {
        if (pos == fault && !(once && done))
        {
            done = true;
            boom(how);
        }
    }
    typename T::int_type underflow() override
    {
        if (!chunk)
        {
            check();
            return pos < t.size() ? T::to_int_type(t[pos]) : T::eof();
        }
        check();
        if (pos >= t.size())
            return T::eof();
        size_t k = std::min(chunk, t.size() - pos);
        if (fault > pos && fault < pos + k)
            k = fault - pos;
        this->setg(&t[pos], &t[pos], &t[pos] + k);
        pos += k;
        return T::to_int_type(*this->gptr());
    }
    typename T::int_type uflow() override
    {
        if (chunk)
            return std::basic_streambuf<Ch>::uflow();
        check();
        return pos < t.size() ? T::to_int_type(t[pos++]) : T::eof();
    }
};
template <class Ch>
struct InAdapter : configor::basic_iadapter<Ch>
{
    Str<Ch> t;
    size_t  fault, pos = 0;
    int     how;
    InAdapter(const Str<Ch>& s, size_t f, int h)
        : t(s)
        , fault(f)
        , how(h)
    {
    }
    Ch read() override
    {
        if (pos == fault)
            boom(how);
        return pos < t.size() ? t[pos++] : static_cast<Ch>(std::char_traits<Ch>::eof());
    }
    using configor::basic_iadapter<Ch>::read;
};
struct Cookie
{
    std::string t;
    size_t      fault, chunk, pos = 0;
    bool        once;
    bool        done = false;
};
static FILE* cookie_file(Cookie& c)
{
    cookie_io_functions_t io = {};
    io.read                  = [](void* p, char* b, size_t n) -> ssize_t
    {
        auto& c = *static_cast<Cookie*>(p);
        if (c.pos == c.fault && !(c.once && c.done))
        {
            c.done = true;
            errno  = EIO;
            return -1;
        }
        size_t k = std::min({ n, c.chunk, c.t.size() - c.pos });
        if (c.fault > c.pos && c.fault < c.pos + k)
            k = c.fault - c.pos;
        std::memcpy(b, c.t.data() + c.pos, k);
        c.pos += k;
        return static_cast<ssize_t>(k);
    };
    FILE* f = fopencookie(&c, "r", io);
    if (!f)
        throw mc::Fail{ "fopencookie" };
    return f;
}

// a FILE on a pipe that gives these bytes and then ends or fails (glibc's cookie files cannot be wide)
static FILE* pipe_file(const std::string& bytes, bool fault, int& writer)
{
    int fd[2];
    if (pipe2(fd, O_NONBLOCK) || write(fd[1], bytes.data(), bytes.size()) != static_cast<ssize_t>(bytes.size()))
        throw mc::Fail{ "pipe" };
    writer = fault ? fd[1] : -1;  // a reader of an empty pipe with a writer fails with EAGAIN
    if (!fault)
        close(fd[1]);
    FILE* f = fdopen(fd[0], "r");
    if (!f)
        throw mc::Fail{ "fdopen" };
    return f;
}
// run one parse whose source fails at unit p of a text that needs `need` units (the end counts as one)
template <class Json, class Ch, class Make>
static void parse_fault(mc::Ctx& cx, const Str<Ch>& text, size_t p, bool valid, size_t need, const V& want, const char* how, Make&& make)
{
    using Val   = typename Json::value;
    using P     = typename Json::template parser_type<Ch>;
    bool report = !valid || p < need;
    auto what   = [&] { return "parsing " + mc::shows(text) + " whose source (" + how + ") fails at unit " + std::to_string(p); };
    // formatted extraction needs a character type facet, which 16 and 32 bit streams lack
    for (int route = 0; route < (sizeof(Ch) == 1 || std::is_same<Ch, wchar_t>::value ? 4 : 3); ++route)
    {
        auto buf = make();
        std::basic_istream<Ch> is(buf.get());
        Val  v = to<Val>(V::string(U"old"));
        bool told = false;
        error_handler_with<error_policy::record> rec;
        auto e = attempt([&]
                         {
                             switch (route)
                             {
                             case 0: v = Json::parse(is); break;
                             case 1: Json::parse(v, is); break;
                             case 2: Json::parse(v, is, { P::with_error_handler(&rec) }); told = !rec.error.empty(); break;
                             case 3: is >> Json::wrap(v); told = is.fail(); break;
                             }
                         });
        cx.eval();
        if (report)
        {
            if (e == none && !told)
                cx.fail(what() + " gave " + ref::show(from(v)) + " by route " + std::to_string(route));
            if (e != none && e != deserialization)
                cx.fail(what() + " ended with " + name(e) + " by route " + std::to_string(route));
            if (route == 0 && !ref::eq(from(v), V::string(U"old"), ref::Cmp()))
                cx.fail(what() + " and still set the result");
        }
        else if (e != none || told || !ref::eq(from(v), want, ref::literal_cmp()))
            cx.fail(what() + ", after everything it had to read, " + (e || told ? "failed" : "gave " + ref::show(from(v))) + " by route " + std::to_string(route));
        cx.outcome(mc::mix(report * 8 + static_cast<uint64_t>(route)) ^ mc::hash(text.data(), text.size() * sizeof(Ch)));
    }
}
// of a large text only the positions at its ends and next to powers of two are tried
static bool tried(size_t p, size_t n)
{
    if (n < 3000 || p < 3 || p + 3 > n)
        return true;
    for (size_t b = 4096; b <= n; b *= 2)
        if (p + 1 == b || p == b || p == b + 1)
            return true;
    return p == n / 2;
}
template <class Json, class Ch>
static void parse_faults(mc::Ctx& cx, const Str<Ch>& text, bool files)
{
    V      want;
    size_t reached = 0;
    auto   st      = ref::parse(ref::dec(text), want, ref::Limits(), &reached);
    if (st == ref::Either)
        return;
    bool   valid = st == ref::Ok;
    // a valid document needs everything up to the NUL that ends it, or up to the end of the input
    size_t need = text.size() + 1, nul = text.size();
    if (valid)
        for (size_t k = 0; k < text.size(); ++k)
            if (text[k] == 0)
            {
                V      w;
                if (ref::parse(ref::dec(text.substr(0, k)), w) == ref::Ok)
                {
                    need = k + 1;
                    nul  = k;
                    break;
                }
            }
    for (size_t p = 0; p <= text.size(); ++p)
    {
        if (!tried(p, text.size()))
            continue;
        for (size_t chunk : { 0, 1, 2, 5, 100 })
            for (int how = 0; how < 3; ++how)
                for (bool once : { false, true })
                    if (how == 0 || chunk < 2)
                        parse_fault<Json, Ch>(cx, text, p, valid, need, want, "a stream buffer that throws", [&] { return std::unique_ptr<std::basic_streambuf<Ch>>(new Source<Ch>(text, p, chunk, how, once)); });
        if constexpr (sizeof(Ch) == 1 || std::is_same<Ch, wchar_t>::value)
        {
            struct Buf : std::basic_streambuf<Ch>
            {
            };
            for (int how = 0; how < 3; ++how)
            {
                using Val = typename Json::value;
                for (int route = 0; route < 2; ++route)
                {
                    InAdapter<Ch>                      a(text, p, how);
                    configor::basic_iadapterstream<Ch> is(a);
                    Val                                v;
                    bool                               told = false;
                    auto e = attempt([&] { if (route) { is >> Json::wrap(v); told = is.fail(); } else v = Json::parse(is); });
                    cx.eval();
                    bool report = !valid || p < need;
                    if (report ? e != deserialization && !told : e || !ref::eq(from(v), want, ref::literal_cmp()))
                        cx.fail("parsing " + mc::shows(text) + " from an adapter that throws at unit " + std::to_string(p) + (e ? std::string(" ended with ") + name(e) : " gave " + ref::show(from(v))));
                }
            }
            if constexpr (sizeof(Ch) == 1)
            {
                std::string bytes(text.begin(), text.end());
                if (files)
                    for (size_t chunk : { 1, 3, 4096 })
                        for (int route = 0; route < 4; ++route)
                        {
                            using Val = typename Json::value;
                            Cookie c{ bytes, p, chunk };
                            c.once  = route & 1;
                            FILE* f = cookie_file(c);
                            Val   v;
                            auto  e = attempt([&] { route & 2 ? Json::template parse<Ch>(v, f) : void(v = Json::template parse<Ch>(f)); });
                            std::fclose(f);
                            cx.eval();
                            // reading ahead may meet the fault although the document ended before; only what must be reported is judged
                            bool report = !valid || p < need;
                            if (report ? e != deserialization : e == none && !ref::eq(from(v), want, ref::literal_cmp()))
                                cx.fail("parsing " + mc::shows(text) + " from a FILE that fails at byte " + std::to_string(p) + (e ? std::string(" ended with ") + name(e) : " gave " + ref::show(from(v))));
                        }
            }
        }
    }
    // an early end at every unit: an error, or the value of a complete shorter document
    for (size_t p = 0; p < text.size(); ++p)
    {
        if (!tried(p, text.size()))
            continue;
        Str<Ch>     t = text.substr(0, p);
        V           w;
        ref::Status s = ref::parse(ref::dec(t), w);
        if (s == ref::Either)
            continue;
        using Val = typename Json::value;
        auto judge = [&](const char* how, Err e, const Val& v)
        {
            cx.eval();
            if (s == ref::Bad ? e != deserialization : e || !ref::eq(from(v), w, ref::literal_cmp()))
                cx.fail(mc::shows(text) + " cut to " + mc::shows(t) + " from " + how + (e ? std::string(" ended with ") + name(e) : " gave " + ref::show(from(v))));
        };
        {
            Val v;
            judge("a string", attempt([&] { v = Json::parse(t); }), v);
        }
        for (size_t chunk : { 0, 1, 3 })
        {
            Source<Ch>             b(t, ~size_t(0), chunk, 0, false);
            std::basic_istream<Ch> is(&b);
            Val                    v;
            judge("a stream", attempt([&] { v = Json::parse(is); }), v);
        }
        if constexpr (sizeof(Ch) == 1 || std::is_same<Ch, wchar_t>::value)
        {
            InAdapter<Ch>                      a(t, ~size_t(0), 0);
            configor::basic_iadapterstream<Ch> is(a);
            Val                                v;
            judge("an adapter", attempt([&] { v = Json::parse(is); }), v);
        }
        if constexpr (sizeof(Ch) == 1)
        if (files)
        {
            Cookie c{ std::string(t.begin(), t.end()), ~size_t(0), 2 };
            FILE*  f = cookie_file(c);
            Val    v;
            judge("a FILE", attempt([&] { v = Json::template parse<Ch>(f); }), v);
            std::fclose(f);
        }
    }
    (void)nul;
}
// a wide FILE whose bytes end or fail inside a character
static void wide_bytes(mc::Ctx& cx, const std::string& bytes)
{
    for (size_t p = 0; p <= bytes.size(); ++p)
        for (int fault = 0; fault < 2; ++fault)
        {
            int          writer;
            FILE*        f = pipe_file(bytes.substr(0, p), fault, writer);
            wjson::value v;
            auto         e = attempt([&] { v = wjson::parse<wchar_t>(f); });
            std::fclose(f);
            if (writer >= 0)
                close(writer);
            V    w;
            auto s = fault ? ref::Bad : ref::parse(ref::dec(bytes.substr(0, p)), w);
            cx.eval();
            if (s == ref::Bad ? e != deserialization : e || !ref::eq(from(v), w, ref::literal_cmp()))
                cx.fail("a wide FILE of " + mc::shows(bytes) + (fault ? " failing" : " ending") + " at byte " + std::to_string(p) + (e ? std::string(" ended with ") + name(e) : " gave " + ref::show(from(v))));
            cx.outcome(mc::hash(bytes) + p);
        }
}

// ---- sinks -------------------------------------------------------------------------------------
enum Refusal
{
    Eof,    // overflow gives eof, block writes are short
    Once,   // the same, once; later writes would be accepted
    Throw,  // an exception
    ThrowOnce,
    Short,  // a block write takes part and says so, characters are always accepted
};
template <class Ch>
struct Sink : std::basic_streambuf<Ch>
{
    using T = std::char_traits<Ch>;
    Str<Ch> t;
    size_t  fault;
    Refusal how;
    bool    block, done = false;
    Sink(size_t f, Refusal h, bool b)
        : fault(f)
        , how(h)
        , block(b)
    {
    }
    bool refuse()  // may throw
    {
        if (t.size() < fault || ((how == Once || how == ThrowOnce || how == Short) && done))
            return false;
        done = true;
        if (how == Throw || how == ThrowOnce)
            boom(0);
        return true;
    }
    typename T::int_type overflow(typename T::int_type c) override
    {
        if (T::eq_int_type(c, T::eof()))
            return T::not_eof(c);
        if (refuse())
            return T::eof();
        t.push_back(T::to_char_type(c));
        return c;
    }
    std::streamsize xsputn(const Ch* s, std::streamsize n) override
    {
        if (!block)
            return std::basic_streambuf<Ch>::xsputn(s, n);
        std::streamsize k = 0;
        while (k < n && !refuse())
            t.push_back(s[k++]);
        return k;
    }
};
template <class Ch>
struct OutAdapter : configor::basic_oadapter<Ch>
{
    Str<Ch> t;
    size_t  fault;
    int     how;
    bool    once, done = false;
    void    write(const Ch c) override
    {
        if (t.size() == fault && !(once && done))
        {
            done = true;
            boom(how);
        }
        t.push_back(c);
    }
    using configor::basic_oadapter<Ch>::write;
};
template <class Json, class Ch>
static void dump_faults(mc::Ctx& cx, const V& r)
{
    using Val   = typename Json::value;
    using S     = typename Json::template serializer_type<Ch>;
    const Val v = to<Val>(r);
    for (int opt = 0; opt < 2; ++opt)
    {
        std::initializer_list<typename S::option> none_ = {};
        (void)none_;
        auto dump_to = [&](std::basic_ostream<Ch>& os, configor::error_handler* h)
        {
            if (opt)
                Json::dump(os, v, { S::with_indent(1, Ch('\t')), S::with_error_handler(h) });
            else
                Json::dump(os, v, { S::with_error_handler(h) });
        };
        const V before = from(v);
        Str<Ch> full = opt ? Json::template dump<Ch>(v, { S::with_indent(1, Ch('\t')) }) : Json::template dump<Ch>(v);
        auto    judge = [&](const char* how, size_t p, Err e, const Str<Ch>& got)
        {
            cx.eval();
            bool must = p < full.size();
            if (must ? e != serialization : e != none || got != full)
                cx.fail("dumping " + ref::show(r) + " to " + how + " at unit " + std::to_string(p) + " of " + mc::shows(full) + (e ? std::string(" ended with ") + name(e) : " returned as if all were written") + ", written: " + mc::shows(got));
            if (full.compare(0, got.size(), got) != 0)
                cx.fail("dumping " + ref::show(r) + " to " + how + " at unit " + std::to_string(p) + " wrote " + mc::shows(got) + ", no beginning of " + mc::shows(full));
            if (!ref::eq(from(v), before, ref::Cmp()))
                cx.fail("dumping changed the value");
        };
        for (size_t p = 0; p <= full.size(); ++p)
        {
            if (!tried(p, full.size()))
                continue;
            for (Refusal h : { Eof, Once, Throw, ThrowOnce, Short })
                for (bool block : { false, true })
                {
                    const char* nm[] = { "a sink that is full", "a sink that refuses once", "a sink that throws", "a sink that throws once", "a sink that takes part" };
                    if (h == Short && !block)
                        continue;
                    {
                        Sink<Ch>               s(p, h, block);
                        std::basic_ostream<Ch> os(&s);
                        judge(nm[h], p, attempt([&] { dump_to(os, nullptr); }), s.t);
                    }
                    {
                        Sink<Ch>                                 s(p, h, block);
                        std::basic_ostream<Ch>                   os(&s);
                        error_handler_with<error_policy::record> rec;
                        auto                                     e = attempt([&] { dump_to(os, &rec); });
                        judge("a recorded sink", p, e == none && !rec.error.empty() ? serialization : e == none ? none : other, s.t);
                    }
                    if (!opt)
                    {
                        Sink<Ch>               s(p, h, block);
                        std::basic_ostream<Ch> os(&s);
                        judge("a wrapped insertion", p, attempt([&] { os << Json::wrap(v); }), s.t);
                    }
                }
            for (int how = 0; how < 3; ++how)
                for (bool once : { false, true })
                {
                    OutAdapter<Ch> a;
                    a.fault = p, a.how = how, a.once = once;
                    configor::basic_oadapterstream<Ch> os(a);
                    judge("an adapter that throws", p, attempt([&] { dump_to(os, nullptr); }), a.t);
                }
        }
        cx.outcome(mc::hash(full.data(), full.size() * sizeof(Ch)));
    }
}

int main(int argc, char** argv)
{
    std::setlocale(LC_CTYPE, "C.UTF-8");
    mc::Check ck;
    ck.id     = "C19";
    ck.part   = "main";
    ck.mem_mb = 0;
    bool th   = mc::is_thorough(argc, argv);
    ck.rule   = "every unit position of every text (value) times every way the source (sink) can fail there; a fault point is distinct by text, position, kind and route";
    ck.assumptions = { "a source that reports its failure as an ordinary end of input (end of stream without error) is an early end", "what a stream buffer of the caller holds back after dump returned (flush failures) is the caller's" };
    static const std::vector<std::string> tok = { "[", "]", "{", "}", ",", ":", "12", "-0.5e1", "true", "null", "\"a\\n\"", "\"\xc3\xa9\xf0\x9d\x84\x9e\"", " ", "/*x*/", "//y\n", std::string(1, '\0'), "\"\\ud834\\udd1e\"", "\x80" };
    static unsigned N = static_cast<unsigned>(tok.size());
    static const std::vector<std::string> docs = {
        "[1,2,3]", "{\"a\":1,\"b\":[true,false,null]}", " {\"k\" : \"v\\u00e9\\n\" , \"z\":-1.25e-3} ", "\"\xe4\xb8\xad\xe6\x96\x87\"", "[[[[[]]]]]", "{\"a\":{\"b\":{\"c\":{}}}}", "/*c*/[1/*d*/,2//e\n]//f", "12345", "-7 ", "1.5", "1e5", "true", "false", "null",
        "\"\\ud834\\udd1e\\\\\\\"\\/\"", "[\"a\",\"b\",]", "{\"a\":1,}", std::string("[1]\0tail", 8), std::string("7 \0", 3), "[\"\xf0\x9d\x84\x9e\",\"\xc3\xa9\"]", "/**/ 0 /**/", "[0.1,100,1000000,9223372036854775807,-9223372036854775808]", "[1e300,\"\\u0000\"]", "{\"\":\"\"}" };
    ck.add("documents", docs.size(), "24 documents with every kind of token, every position, every kind of source failure and every early end, narrow, wide, 16 and 32 bit", [](mc::Ctx& cx, uint64_t i)
           {
               auto& d = docs[i];
               U     p = ref::dec(d);
               parse_faults<json, char>(cx, d, true);
               parse_faults<wjson, wchar_t>(cx, ref::enc<wchar_t>(p), true);
               parse_faults<wjson, char>(cx, d, false);
               parse_faults<json, char16_t>(cx, ref::enc<char16_t>(p), false);
               parse_faults<json, char32_t>(cx, ref::enc<char32_t>(p), false);
               if (d.find('\0') == std::string::npos)
                   wide_bytes(cx, d);
           }, 300, 1);
    ck.add("more documents", all_documents().size(), "documents with every kind of token, escape, number, character and error, at every position, and the dumping of their values", [](mc::Ctx& cx, uint64_t i)
           {
               auto& d = all_documents()[i];
               if (d.find('\xff') != std::string::npos)  // an adapter's end
                   return;
               parse_faults<json, char>(cx, d, false);
               parse_faults<wjson, wchar_t>(cx, wide_document<wchar_t>(d), false);
               V r;
               if (ref::parse(ref::dec(d), r) == ref::Ok)
               {
                   dump_faults<json, char>(cx, r);
                   dump_faults<wjson, wchar_t>(cx, r);
               }
           }, 300, 1);
    ck.add("words", mc::words_upto(N, th ? 4 : 3), "every word of up to " + std::string(th ? "4" : "3") + " of 18 tokens", [th](mc::Ctx& cx, uint64_t i)
           {
               std::string t;
               for (auto k : mc::word(N, i))
                   t += tok[k];
               V w;
               if (ref::parse(ref::dec(t), w) == ref::Bad && t.size() > (th ? 12u : 8u))  // long refused texts add little
                   return;
               parse_faults<json, char>(cx, t, i % 16 == 0);
           }, 120, 16);
    static trees::Space sp;
    sp.leaves = { V(), V::boolean(true), V::integer(-12), V::floating(0.5), V::string(U"\u00e9\n\U0001d11e") };
    sp.keys   = { U"", U"k\"" };
    sp.build(th ? 5 : 4);
    ck.add("sinks", sp.size(), "every tree of weight up to " + std::string(th ? "5" : "4") + ", every position of its text, every kind of refusal", [](mc::Ctx& cx, uint64_t i)
           {
               dump_faults<json, char>(cx, sp[i]);
               if (i % 4 == 0)
                   dump_faults<wjson, wchar_t>(cx, sp[i]);
               if (i % 16 == 0)
                   dump_faults<json, wchar_t>(cx, sp[i]);
           }, 120, 8);
    static const size_t large[] = { 4095, 4097, 8193, 32768, 65535, 65537 };
    ck.add("large", 6 * 4, "a string, white space, a comment or an array of 6 sizes up to 65537: faults at the ends and next to every power of two", [](mc::Ctx& cx, uint64_t i)
           {
               size_t      n = large[i / 4];
               std::string t = "[";
               V           v;
               switch (i % 4)
               {
               case 0:
                   t += "\"" + std::string(n, 'x') + "\"";
                   v = V::array({ V::string(U(n, 'x')) });
                   break;
               case 1:
                   t += std::string(n, ' ') + "1";
                   v = V::string(U(n / 2, U'\u00e9'));
                   break;
               case 2:
                   t += "1/*" + std::string(n, '\n') + "*/";
                   break;
               case 3:
                   for (size_t k = 0; k < n / 2; ++k)
                       t += "1,";
                   v = V::array();
                   v.a.assign(n / 2, V::integer(1));
                   break;
               }
               t += "]";
               parse_faults<json, char>(cx, t, true);
               parse_faults<wjson, wchar_t>(cx, ref::enc<wchar_t>(ref::dec(t)), false);
               dump_faults<json, char>(cx, v);
               dump_faults<wjson, wchar_t>(cx, v);
           }, 300, 1);
    return mc::run(ck, argc, argv);
}
