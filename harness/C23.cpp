// C23: every input terminates safely, read no further than it must be.
#include "cfg.hpp"
#include "docs.hpp"
#include <cstdio>
#include <memory>
using namespace cf;
using ref::U;
using ref::V;
static mc::Check ck;

// a source that notes everything asked of it
template <class Ch>
struct Track : std::basic_streambuf<Ch>
{
    using B        = std::basic_streambuf<Ch>;
    using int_type = typename B::int_type;
    using T        = typename B::traits_type;
    const Ch* s;
    size_t    n, pos = 0, max = 0, eofs = 0;
    bool      nuls;     // NULs for ever after the text
    int       odd = 0;  // seeking, putting back
    Track(const std::basic_string<Ch>& t, bool nuls)
        : s(t.data())
        , n(t.size())
        , nuls(nuls)
    {
    }
    int_type look()
    {
        if (pos >= n && !nuls)
        {
            if (++eofs > 1000)
                throw mc::Fail{ "the end of the input was read 1000 times" };
            return T::eof();
        }
        max = std::max(max, pos + 1);
        if (pos > n + 100000)
            throw mc::Fail{ "100000 NULs after the end were read" };
        return pos < n ? T::to_int_type(s[pos]) : T::to_int_type(Ch());
    }
    int_type underflow() override { return look(); }
    int_type uflow() override
    {
        auto c = look();
        if (!T::eq_int_type(c, T::eof()))
            ++pos;
        return c;
    }
    int_type pbackfail(int_type) override
    {
        odd |= 1;
        return T::eof();
    }
    typename B::pos_type seekoff(typename B::off_type, std::ios_base::seekdir, std::ios_base::openmode) override
    {
        odd |= 2;
        return typename B::pos_type(typename B::off_type(-1));
    }
    typename B::pos_type seekpos(typename B::pos_type, std::ios_base::openmode) override
    {
        odd |= 2;
        return typename B::pos_type(typename B::off_type(-1));
    }
    std::streamsize xsputn(const Ch*, std::streamsize) override
    {
        odd |= 4;
        return 0;
    }
    int_type overflow(int_type) override
    {
        odd |= 4;
        return T::eof();
    }
};
template <class Ch>
struct Adapter : configor::basic_iadapter<Ch>
{
    Track<Ch>& t;
    Adapter(Track<Ch>& t)
        : t(t)
    {
    }
    using configor::basic_iadapter<Ch>::read;
    Ch read() override
    {
        auto c = t.uflow();
        return std::char_traits<Ch>::to_char_type(c);
    }
};
// the units of one character
template <class Ch>
static size_t units(uint32_t c)
{
    if (sizeof(Ch) == 4)
        return 1;
    if (sizeof(Ch) == 2)
        return c == ref::bad || c > 0xFFFF ? 2 : 1;
    return c == ref::bad ? 6 : c > 0xFFFF ? 4 : c > 0x7FF ? 3 : c > 0x7F ? 2 : 1;
}
// the end of the token that starts (or, for a bad literal or number, is under way) at p
static size_t token_end(const U& u, size_t p)
{
    if (p >= u.size())
        return p;
    auto run = [&](const char* set)
    {
        size_t q = p;
        while (q < u.size() && u[q] && u[q] < 0x80 && std::strchr(set, static_cast<int>(u[q])))
            ++q;
        return q;
    };
    uint32_t c = u[p];
    if (c && c < 0x80 && std::strchr("[]{},:", static_cast<int>(c)))
        return p + 1;
    if (c && c < 0x80 && std::strchr("0123456789+-", static_cast<int>(c)))
        return run("0123456789+-.eE");
    if (c == 't' || c == 'f' || c == 'n')
        return run("truefalsn");
    if (c == '"')
    {
        size_t q = p + 1;
        while (q < u.size() && u[q] >= 0x20 && u[q] != ref::bad && u[q] != '"')
            q += u[q] == '\\' && q + 1 < u.size() ? 2 : 1;
        return q;
    }
    return p;  // no token: the character itself offends
}
// how many units may be read: up to the token that ends the document or breaks it, and the one character that ends it
template <class Ch>
static size_t limit(const U& u, size_t reached)
{
    size_t e = token_end(u, reached), n = 0;
    for (size_t k = 0; k <= e && k < u.size(); ++k)
        n += units<Ch>(u[k]);
    return n;
}

template <class Json, class Ch>
static void safe(mc::Ctx& cx, const std::basic_string<Ch>& text, bool more, ref::Cmp cmp = ref::literal_cmp())
{
    using Val = typename Json::value;
    U      u  = ref::dec(text);
    V      want;
    size_t reached = 0;
    auto   st      = ref::parse(u, want, ref::Limits(), &reached);
    auto   lim     = limit<Ch>(u, reached);
    auto   judge   = [&](const char* how, Err e, const Val& v)
    {
        cx.eval();
        if (e != none && e != deserialization)
            cx.fail("parsing " + mc::shows(text) + " " + how + " ended with " + name(e));
        if (st == ref::Either)
            return;
        if (st == ref::Ok ? e != none : e == none)
            cx.fail("parsing " + mc::shows(text) + " " + how + (e ? std::string(" ended with ") + name(e) : " gave " + ref::show(from(v))) + ", it must " + (st == ref::Ok ? "give " + ref::show(want) : "be refused"));
        if (st == ref::Ok && !ref::eq(from(v), want, cmp))
            cx.fail("parsing " + mc::shows(text) + " " + how + " gave " + ref::show(from(v)) + " instead of " + ref::show(want));
    };
    auto read = [&](const char* how, const Track<Ch>& t)
    {
        if (t.odd)
            cx.fail("parsing " + mc::shows(text) + " " + how + (t.odd & 1 ? " puts characters back" : t.odd & 2 ? " seeks" : " writes to the source"));
        // with NULs after the text, the one after its end may be read as well
        if (t.max > lim && !(t.nuls && lim >= t.n && t.max <= t.n + 1))
            cx.fail("parsing " + mc::shows(text) + " " + how + " read " + std::to_string(t.max) + " units, it had to read at most " + std::to_string(lim));
        if (t.eofs > 1)
            cx.fail("parsing " + mc::shows(text) + " " + how + " read the end of the input " + std::to_string(t.eofs) + " times");
    };
    {
        Track<Ch>              t(text, false);
        std::basic_istream<Ch> is(&t);
        Val                    v;
        auto                   e = attempt([&] { v = Json::parse(is); });
        judge("from a stream", e, v);
        read("from a stream", t);
    }
    cx.outcome(st == ref::Ok ? shape_hash(want) : mc::mix(reached + st));
    if (!more)
        return;
    bool nul = false;
    for (auto c : text)
        nul = nul || !c;
    {
        // the same text followed by NULs for ever; the reference of an unended token may differ from that of the end
        V      w;
        size_t r2  = 0;
        U      u2  = u + U(1, 0);
        auto   st2 = ref::parse(u2, w, ref::Limits(), &r2);
        Track<Ch>              t(text, true);
        std::basic_istream<Ch> is(&t);
        Val                    v;
        auto                   e = attempt([&] { v = Json::parse(is); });
        cx.eval();
        if (e != none && e != deserialization)
            cx.fail("parsing " + mc::shows(text) + " and NULs for ever ended with " + name(e));
        if (st2 != ref::Either && (st2 == ref::Ok ? e || !ref::eq(from(v), w, cmp) : e == none))
            cx.fail("parsing " + mc::shows(text) + " and NULs for ever" + (e ? std::string(" ended with ") + name(e) : " gave " + ref::show(from(v))) + ", without them " + (st2 == ref::Ok ? "it is " + ref::show(w) : "it is refused"));
        lim = limit<Ch>(u2, r2);
        read("and NULs for ever from a stream", t);
    }
    {
        // exactly as long as it is: AddressSanitizer sees the first read beyond it
        std::basic_string<Ch>  s(text);
        s.shrink_to_fit();
        std::unique_ptr<Ch[]> exact(new Ch[text.size() + 1]);
        std::copy(text.begin(), text.end(), exact.get());
        exact[text.size()] = 0;
        Val  v;
        auto e = attempt([&] { v = Json::template parse<Ch>(exact.get()); });
        if (!nul)
            judge("from a C string", e, v);
        else if (e != none && e != deserialization)
            cx.fail("parsing " + mc::shows(text) + " from a C string ended with " + name(e));
        Val  x;
        auto g = attempt([&] { Json::template parse<Ch>(x, s.c_str()); });
        if (g != e || (e == none && !(x == v)))
            cx.fail("parsing " + mc::shows(text) + " from a C string twice gave different results");
        if constexpr (sizeof(Ch) == 1 || std::is_same<Ch, wchar_t>::value)
        {
        std::basic_istringstream<Ch> is(text);
        Val                          y;
        auto                         h = attempt([&] { is >> Json::wrap(y); });
        if (h == none && is.fail())
            h = deserialization;
        // (extraction skips whatever white space the locale knows, form feeds included)
        size_t first = 0;
        while (first < text.size() && (text[first] == ' ' || text[first] == '\t' || text[first] == '\n' || text[first] == '\r'))
            ++first;
        if (first == text.size() || (text[first] != '\f' && text[first] != '\v'))
            judge("by extraction", h, y);
        }
    }
    if constexpr (sizeof(Ch) == 1)
    {
        std::string            bytes(text.begin(), text.end());
        if (bytes.find(static_cast<char>(-1)) == std::string::npos)  // to an adapter that byte is the end
        {
            Track<Ch>                          t(text, false);
            Adapter<Ch>                        a(t);
            configor::basic_iadapterstream<Ch> is(a);
            Val                                v;
            auto                               e = attempt([&] { v = Json::parse(is); });
            lim = limit<Ch>(u, reached);
            judge("from an adapter", e, v);
            read("from an adapter", t);
        }
        if (!bytes.empty())
        {
            FILE* f = fmemopen(&bytes[0], bytes.size(), "r");
            Val   v;
            auto  e = attempt([&] { v = Json::template parse<Ch>(f); });
            std::fclose(f);
            judge("from a file", e, v);
        }
    }
}
static std::string byte_string(unsigned len, uint64_t i)
{
    std::string s;
    for (unsigned k = 0; k < len; ++k, i >>= 8)
        s += static_cast<char>(i & 255);
    return s;
}
template <class Ch>
static std::basic_string<Ch> widen(const std::string& s)
{
    return ref::enc<Ch>(ref::dec(s));
}

static const std::vector<std::string> docs = {
    "{\"a\":[1,-2.5e+3,true],\"b\":null}",
    "[\"\\u00e9\\ud834\\udd1e\\n\\\"\",\"\xc3\xa9\xe4\xb8\xad\xf0\x9d\x84\x9e\"]",
    " /* c *//**/ [ 1 , // l\n 2 ] \t\r\n//e",
    "-123456789012345678.75",
    "9223372036854775807",
    "[[[{\"\":{}}]],[],{},false]",
    "{\"k\":\"v\",\"k\":2,\"\\u006b\":[3,],}",
    "0.001E-2",
    "\"\\ud83d\\ude00\\/\\b\\f\\r\\t\\\\\"",
    "[-0,+7,0.5,1.5E10,-9223372036854775808]",
};
// constructs repeated
struct Rep
{
    const char *pre, *unit, *post;
    bool        deep;  // nests: bounded by the call stack
};
static const std::vector<Rep> reps = {
    { "", " ", "1", false }, { "1", "\n", "", false }, { "1", "\t\r", " x", false }, { "", "//\n", "1", false }, { "", "//\r", "", false }, { "", "/**/", "1", false }, { "1", "/**/", "", false }, { "1 /", "*", "/", false }, { "1/*", "*", "", false },
    { "1/*", "/", "*/", false }, { "1/*", "x", "*/", false }, { "1//", "x", "", false }, { "1//", "x", "\n2", false }, { "1/*", "\xe4\xb8\xad", "*/", false }, { "", "/", "", false }, { "[", "1,", "2]", false }, { "[", "1,", "", false }, { "[", ",", "]", false },
    { "[", "[],", "{}]", false }, { "[", "{},", "]", false }, { "{", "\"k\":1,", "\"j\":2}", false }, { "{", "\"k\":{},", "}", false }, { "\"", "a", "\"", false }, { "\"", "a", "", false }, { "\"", "\\n", "\"", false }, { "\"", "\\", "\"", false },
    { "\"", "\\u00e9", "\"", false }, { "\"", "\\ud834\\udd1e", "\"", false }, { "\"", "\xf0\x9d\x84\x9e", "\"", false }, { "\"", "\xc3\xa9", "\x80\"", false }, { "{\"", "k", "\":1}", false }, { "", "1", "", false }, { "-", "9", "", false },
    { "", "0", "", false }, { "0.", "3", "", false }, { "0.", "0", "1", false }, { "1", "0", ".5", false }, { "1e", "0", "1", false }, { "1.5e", "9", "", false }, { "1.5e-", "9", "", false }, { "", "-", "1", false }, { "1.", ".", "", false }, { "", "null ", "", false },
    { "[", "true,", "false]", false }, { "", "}", "", false }, { "", "]", "", false }, { "", "\"\"", "", false }, { "[", "\"a\" ", "]", false }, { "\"\\u", "0", "\"", false }, { "\"", "\\ud800", "\"", false }, { "tru", "e", "", false },
    { "", "[", "", true }, { "", "{\"\":", "", true }, { "", "[{\"a\":", "", true }, { "", "[[],", "", true },
};

int main(int argc, char** argv)
{
    ck.id     = "C23";
#ifdef PLAIN
    ck.part   = "plain";
#else
    ck.part   = "sanitized";
#endif
    ck.mem_mb = 0;
    bool th   = mc::is_thorough(argc, argv);
    ck.rule   = "byte strings, token words, corruptions of documents and repetitions within the stated bounds, each parsed (all but the largest families under AddressSanitizer and UndefinedBehaviorSanitizer) from sources that count what is read; a case is distinct by its value or by where it is refused";
    ck.assumptions = { "recursion deeper than 10000 is not explored: the call stack bounds it (recorded as a known finding)" };
    static const std::string abc("[]{}:,\"\\u/*\n 019-+.eEtn\0\x80\xc3", 26);
    static const std::vector<std::string> toks = { "[", "]", "{", "}", ",", ":", "\"a\"", "\"", "1", "-", "2.5", "tru", "e", "null", "/*", "*/", "//", "\n", "\\u00e9", std::string(1, '\0') };
    auto triples = [th]
    {
        ck.add("triples", 1ull << 24, "every byte string of 3 bytes", [](mc::Ctx& cx, uint64_t i) { safe<json, char>(cx, byte_string(3, i), false); });
        if (th)
            ck.add("quoted bytes", 1ull << 24, "every 3 bytes within a string within an array", [](mc::Ctx& cx, uint64_t i) { safe<json, char>(cx, "[\"" + byte_string(3, i) + "\"]", false); });
    };
    auto tokens = [](unsigned T)
    {
        ck.add("tokens", mc::words_upto(20, T), "every word of up to " + std::to_string(T) + " of 20 tokens and parts of tokens", [](mc::Ctx& cx, uint64_t i)
               {
                   std::string s;
                   for (auto k : mc::word(20, i))
                       s += toks[k];
                   safe<json, char>(cx, s, i % 16 == 0);
               });
    };
#ifdef PLAIN
    triples();
    tokens(th ? 6 : 5);
    if (th)
        ck.add("long words", mc::words_upto(26, 6), "every byte string of up to 6 of 26 chosen bytes, from a stream", [](mc::Ctx& cx, uint64_t i)
               {
                   std::string s;
                   for (auto k : mc::word(26, i))
                       s += abc[k];
                   safe<json, char>(cx, s, false);
               });
#else
    ck.add("documents", all_documents().size(), "documents with every kind of token, escape, number, character and error, from every kind of source, narrow and wide", [](mc::Ctx& cx, uint64_t i)
           {
               auto& d = all_documents()[i];
               safe<json, char>(cx, d, true);
               safe<wjson, wchar_t>(cx, wide_document<wchar_t>(d), true);
           });
    ck.add("bytes", 1 + 256 + 65536, "every byte string of up to 2 bytes, from every kind of source", [](mc::Ctx& cx, uint64_t i)
           {
               safe<json, char>(cx, i < 1 ? "" : i < 257 ? byte_string(1, i - 1) : byte_string(2, i - 257), true);
           });
    if (th)
        triples();
    else
        ck.add("quoted bytes", 65536 * 4, "every 2 bytes, and every 2 bytes after the first byte of a 4-byte or 3-byte character, within a string within an array", [](mc::Ctx& cx, uint64_t i)
               {
                   static const char* lead[] = { "", "\xf0\x9f", "\xe0", "\xed" };
                   safe<json, char>(cx, std::string("[\"") + lead[i >> 16] + byte_string(2, i & 65535) + "\"]", false);
               });
    unsigned                 L = th ? 5 : 4;
    ck.add("words", mc::words_upto(26, L), "every byte string of up to " + std::to_string(L) + " of 26 chosen bytes, from every kind of source", [](mc::Ctx& cx, uint64_t i)
           {
               std::string s;
               for (auto k : mc::word(26, i))
                   s += abc[k];
               safe<json, char>(cx, s, true);
           });
    tokens(th ? 5 : 4);
    // one byte of a document replaced, inserted, removed, doubled; the document cut short or started late
    {
        static std::vector<std::pair<int, int>> at;
        for (size_t d = 0; d < docs.size(); ++d)
            for (size_t p = 0; p <= docs[d].size(); ++p)
                at.emplace_back(d, p);
        ck.add("corruptions", at.size() * 516, "10 documents, every position, every byte there replaced by or preceded by every byte, removed, doubled, the text cut or started there", [](mc::Ctx& cx, uint64_t i)
               {
                   auto        a = at[i / 516];
                   unsigned    k = i % 516;
                   std::string s = docs[static_cast<size_t>(a.first)];
                   size_t      p = static_cast<size_t>(a.second);
                   if (k < 256)
                       s.insert(p, 1, static_cast<char>(k));
                   else if (p == s.size())
                       return;
                   else if (k < 512)
                       s[p] = static_cast<char>(k - 256);
                   else if (k == 512)
                       s.erase(p, 1);
                   else if (k == 513)
                       s.insert(p, 1, s[p]);
                   else if (k == 514)
                       s.resize(p);
                   else
                       s.erase(0, p);
                   safe<json, char>(cx, s, true);
               });
        ck.add("wide corruptions", at.size() * abc.size() * 2, "the documents as 16 and 32 bit units, every position replaced by or preceded by 26 chosen units", [](mc::Ctx& cx, uint64_t i)
               {
                   mc::Digits d(i);
                   auto       a = at[d(at.size())];
                   auto       c = abc[d(abc.size())];
                   bool       ins = d(2);
                   auto       edit = [&](auto s, auto u)
                   {
                       size_t p = std::min(static_cast<size_t>(a.second), s.size());
                       if (ins)
                           s.insert(p, 1, u);
                       else if (p < s.size())
                           s[p] = u;
                       return s;
                   };
                   unsigned char b = static_cast<unsigned char>(c);
                   auto&         t = docs[static_cast<size_t>(a.first)];
                   safe<wjson, wchar_t>(cx, edit(widen<wchar_t>(t), static_cast<wchar_t>(b == 0x80 ? 0xD800 : b == 0xc3 ? 0x110000 : b)), true);
                   safe<json, char32_t>(cx, edit(widen<char32_t>(t), static_cast<char32_t>(b == 0x80 ? 0xDC00 : b == 0xc3 ? 0x7FFFFFFF : b)), false);
                   safe<json, char16_t>(cx, edit(widen<char16_t>(t), static_cast<char16_t>(b == 0x80 ? 0xD800 : b == 0xc3 ? 0xDC00 : b)), false);
               });
        if (th)
        {
            static const std::string few("[]{}:,\"\\u/*\n 19-.e\0\x80", 20);
            static std::vector<std::array<int, 3>> two;
            for (size_t d = 0; d < docs.size(); ++d)
                for (size_t p = 0; p < docs[d].size(); ++p)
                    for (size_t q = p + 1; q < docs[d].size(); ++q)
                        two.push_back({ static_cast<int>(d), static_cast<int>(p), static_cast<int>(q) });
            ck.add("double corruptions", two.size() * few.size() * few.size(), "10 documents, every two positions replaced by every two of 20 chosen bytes", [](mc::Ctx& cx, uint64_t i)
                   {
                       mc::Digits  d(i);
                       auto        a = two[d(two.size())];
                       std::string s = docs[static_cast<size_t>(a[0])];
                       s[static_cast<size_t>(a[1])] = few[d(few.size())];
                       s[static_cast<size_t>(a[2])] = few[d(few.size())];
                       safe<json, char>(cx, s, false);
                   });
        }
    }
    // all 16-bit unit pairs in a string; all units alone
    ck.add("units", 65536 * 12, "every 16-bit unit alone, in a string, and next to 10 chosen units in a string", [](mc::Ctx& cx, uint64_t i)
           {
               static const char16_t next[] = { u'a', u'"', u'\\', 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFE };
               auto                  c = static_cast<char16_t>(i);
               if (c == 0xFFFF)  // the streams of such units cannot carry their eof
                   return;
               uint64_t              k = i >> 16;
               std::u16string        s = k == 0 ? std::u16string(1, c) : k == 1 ? u"\"" + std::u16string(1, c) + u"\"" : u"[\"" + std::u16string(1, c) + next[k - 2] + u"\"]";
               safe<json, char16_t>(cx, s, k < 2);
               if (k < 2)
                   safe<json, char32_t>(cx, std::u32string(s.begin(), s.end()), true);
           });
    ck.known.push_back({ "deep-nesting", "a text of 3000000 '[' exhausts the call stack",
                         [](mc::Ctx& cx)
                         {
                             std::string s(3000000, '[');
                             auto        e = attempt([&] { (void)json::parse(s); });
                             if (e != deserialization)
                                 cx.fail(std::string("3000000 '[' ended with ") + name(e));
                         } });
#endif
    // repetitions
#ifdef PLAIN
    static const uint64_t deepest = 10000;
#else
    static const uint64_t deepest = 1500;  // the sanitizers' stack frames are larger
#endif
    unsigned R = 65, P = th ? 20 : 17;
    static std::vector<uint64_t> counts;
    for (uint64_t k = 0; k < R; ++k)
        counts.push_back(k);
    for (unsigned k = 7; k <= P; ++k)
        for (int d = -1; d <= 1; ++d)
            counts.push_back((1ull << k) + static_cast<uint64_t>(static_cast<int64_t>(d)));
    for (uint64_t k : { 100, 255, 307, 308, 309, 310, 324, 325, 1000, 10000, 65534 })
        counts.push_back(k);
    ck.add("repetitions", reps.size() * counts.size(), std::to_string(reps.size()) + " constructs repeated 0 to 64 times and around every power of two up to 2^" + std::to_string(P) + " (nested ones up to " + std::to_string(deepest) + ", objects to 1025)", [](mc::Ctx& cx, uint64_t i)
           {
               auto&    r = reps[i % reps.size()];
               uint64_t n = counts[i / reps.size()];
               // (every level of objects is copied once more)
               if (r.deep && n > (std::strchr(r.unit, '{') ? std::min<uint64_t>(deepest, 1025) : deepest))
                   return;
               std::string s = r.pre, u = r.unit;
               for (uint64_t k = 0; k < n; ++k)
                   s += u;
               s += r.post;
               safe<json, char>(cx, s, true);
               if (r.deep)
               {
                   std::string c = u.find("\"a\"") != std::string::npos ? "}]" : u[0] == '{' ? "}" : "]";
                   for (bool tail : { false, true })
                   {
                       auto t = s + "1";
                       for (uint64_t k = 0; k < n; ++k)
                           t += c;
                       safe<json, char>(cx, tail ? t + "x" : t, true);
                   }
               }
           }, 120, 1);
    return mc::run(ck, argc, argv);
}
