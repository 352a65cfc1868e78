// C18: error handlers see every failure and decide its outcome.
#include "trees.hpp"
#include "docs.hpp"
#include <cmath>
#include <sstream>
using namespace cf;
using ref::U;
using ref::V;
using configor::error_handler_with;
using configor::error_policy;

struct Mine : std::exception
{
    const char* what() const noexcept override { return "mine"; }
};
// counts its calls and keeps what it was given
struct Watch : configor::error_handler
{
    int                calls = 0;
    bool               rethrow = false, own = false;
    std::exception_ptr last;
    void               handle(std::exception_ptr p) override
    {
        ++calls;
        last = p;
        if (own)
            throw Mine();
        if (rethrow)
            std::rethrow_exception(p);
    }
};
struct Outcome
{
    Err         e = none;
    std::string what;
};
template <class F>
static Outcome run(F&& f)
{
    Outcome o;
    o.e = attempt([&]
                  {
                      try
                      {
                          f();
                      }
                      catch (const mc::Fail&)
                      {
                          throw;
                      }
                      catch (const std::exception& x)
                      {
                          o.what = x.what();
                          throw;
                      }
                  });
    return o;
}
static Outcome of(std::exception_ptr p)
{
    return run([&] { std::rethrow_exception(p); });
}

// an operation as a function of the handler (null: none); `kind` the error it must fail with
struct Op
{
    std::string                                            name;
    std::function<void(configor::error_handler*)>          go;  // with the option
    std::function<void()>                                  bare;  // without the option
    Err                                                    kind;
    std::function<void(const char*)>                       after;  // judges what is left behind (target values, output)
};

// the matrix: one operation under every policy
static void policies(mc::Ctx& cx, const Op& op)
{
    auto b = run(op.bare);
    op.after("no handler");
    bool fails = b.e != none;
    auto bad   = [&](const std::string& m) { cx.fail(op.name + ": " + m); };
    if (fails && b.e != op.kind)
        bad(std::string("without a handler it ended with ") + name(b.e));
    if (fails && b.what.empty())
        bad("the exception says nothing");
    auto judge = [&](const char* how, const Outcome& o, bool throws)
    {
        cx.eval();
        if (throws ? o.e != b.e || o.what != b.what : o.e != none)
            bad(std::string("with ") + how + " it ended with " + name(o.e) + " '" + o.what + "', without a handler with " + name(b.e) + " '" + b.what + "'");
        op.after(how);
    };
    judge("a null handler", run([&] { op.go(nullptr); }), true);
    error_handler_with<error_policy::strict> strict;
    judge("a strict handler", run([&] { op.go(&strict); }), true);
    error_handler_with<error_policy::ignore> ignore;
    judge("an ignoring handler", run([&] { op.go(&ignore); }), false);
    error_handler_with<error_policy::record> record;
    for (const char* before : { "", "an older record" })
    {
        record.error = before;
        judge("a recording handler", run([&] { op.go(&record); }), false);
        if (record.error != (fails ? b.what : before))
            bad("the record is '" + record.error + "' where " + (fails ? "the failure says '" + b.what + "'" : std::string("nothing failed")));
    }
    for (int k = 0; k < 3; ++k)
    {
        Watch w;
        w.rethrow = k == 1;
        w.own     = k == 2;
        auto o = run([&] { op.go(&w); });
        cx.eval();
        if (w.calls != (fails ? 1 : 0))
            bad("the handler was called " + std::to_string(w.calls) + " times and the operation " + (fails ? "fails" : "succeeds"));
        if (fails)
        {
            auto g = of(w.last);
            if (g.e != b.e || g.what != b.what)
                bad(std::string("the handler was given ") + name(g.e) + " '" + g.what + "', without a handler it is " + name(b.e) + " '" + b.what + "'");
        }
        if (k == 2 && fails ? o.what != "mine" : k == 1 && fails ? o.e != b.e || o.what != b.what : o.e != none)
            bad(std::string("with a handler that ") + (k == 2 ? "throws its own exception" : k == 1 ? "rethrows" : "returns") + " it ended with " + name(o.e) + " '" + o.what + "'");
        op.after("a custom handler");
    }
    // and none of this has an effect on the next use
    auto again = run(op.bare);
    if (again.e != b.e || again.what != b.what)
        bad("it no longer ends the same way when repeated");
    cx.outcome(mc::hash(b.what));
}

// a value left by a failed operation can be walked, copied, dumped, changed and destroyed
template <class Val>
static void usable(mc::Ctx& cx, Val& v, const std::string& what)
{
    V r = from(v);
    Val c = v;
    if (!ref::eq(from(c), r, ref::Cmp()))
        cx.fail(what + ": the value left behind does not copy");
    for (auto& x : v)
        (void)x.type();
    c = 5;
    v = Val(configor::value_constant::array);
    v.push_back(c);
    if (v.size() != 1)
        cx.fail(what + ": the value left behind cannot be used again");
}
template <class Json, class Ch>
static void parsing(mc::Ctx& cx, const std::basic_string<Ch>& text)
{
    using Val  = typename Json::value;
    using Opt  = typename Json::template parser_type<Ch>;
    ref::V      want;
    ref::Status st = ref::parse(ref::dec(text), want);
    for (int route = 0; route < 4; ++route)
    {
        Val  v = to<Val>(V::object({ { U"old", V::array({ V::integer(1) }) } }));
        Op   op;
        auto call = [&, route](std::initializer_list<typename Opt::option> o, bool bare)
        {
            v = to<Val>(V::object({ { U"old", V::array({ V::integer(1) }) } }));
            std::basic_istringstream<Ch> is(text);
            switch (route)
            {
            case 0: v = bare ? Json::parse(text) : Json::parse(text, o); break;
            case 1: bare ? Json::parse(v, text) : Json::parse(v, text, o); break;
            case 2: v = bare ? Json::parse(is) : Json::parse(is, o); break;
            case 3: bare ? Json::parse(v, is) : Json::parse(v, is, o); break;
            }
        };
        op.name  = "parsing " + mc::shows(text) + (route & 1 ? " into a value" : "") + (route & 2 ? " from a stream" : "");
        op.kind  = deserialization;
        op.bare  = [&] { call({}, true); };
        op.go    = [&](configor::error_handler* h) { call({ Opt::with_error_handler(h) }, false); };
        op.after = [&](const char* how)
        {
            if (st == ref::Ok)
            {
                if (!ref::eq(from(v), want, ref::literal_cmp()))
                    cx.fail(op.name + " with " + how + " gave " + ref::show(from(v)));
            }
            else
                usable(cx, v, op.name + " with " + how);
        };
        policies(cx, op);
        if (st == ref::Bad || st == ref::Ok)
        {
            bool failed = run(op.bare).e != none;
            if (failed != (st == ref::Bad))
                cx.fail(op.name + (failed ? " failed" : " succeeded"));
        }
    }
}
template <class Json, class Ch>
static void dumping(mc::Ctx& cx, const typename Json::value& v, bool fails, const std::string& shown)
{
    using Opt        = typename Json::template serializer_type<Ch>;
    using S          = std::basic_string<Ch>;
    const V before   = from(v);
    S       full;
    bool    have_full = false;
    for (int route = 0; route < 3; ++route)
    {
        S    out;
        Op   op;
        auto call = [&, route](std::initializer_list<typename Opt::option> o, bool bare)
        {
            out.clear();
            std::basic_ostringstream<Ch> os;
            struct Keep
            {
                std::basic_ostringstream<Ch>& os;
                S&                            out;
                bool                          on;
                ~Keep()
                {
                    if (on)
                        out = os.str();
                }
            } keep{ os, out, route == 1 };
            switch (route)
            {
            case 0: out = bare ? Json::template dump<Ch>(v) : Json::template dump<Ch>(v, o); break;
            case 1: bare ? Json::dump(os, v) : Json::dump(os, v, o); break;
            case 2: bare ? Json::template dump<Ch>(out, v) : Json::template dump<Ch>(out, v, o); break;
            }
        };
        op.name  = "dumping " + shown + (route == 1 ? " to a stream" : route == 2 ? " to a given string" : "");
        op.kind  = serialization;
        op.bare  = [&] { call({}, true); };
        op.go    = [&](configor::error_handler* h) { call({ Opt::with_error_handler(h) }, false); };
        op.after = [&](const char* how)
        {
            if (ref::show(from(v)) != ref::show(before))  // NaNs included
                cx.fail(op.name + " with " + how + " changed the value");
            if (!fails)
            {
                if (!have_full)
                    full = out, have_full = true;
                if (out != full || out.empty())
                    cx.fail(op.name + " with " + how + " wrote " + mc::shows(out) + " instead of " + mc::shows(full));
            }
        };
        policies(cx, op);
        if ((run(op.bare).e != none) != fails)
            cx.fail(op.name + (fails ? " succeeded" : " failed"));
    }
}

// the tree with its n-th leaf or key replaced by something that cannot be dumped; false if it has no n-th
static bool spoil(json::value& v, unsigned& n, unsigned how)
{
    static const char* bad[] = { "\xc0", "ok\x80", "\xed\xa0\x80", "x\xf4\x90\x80\x80y", "\xe2\x82" };
    if (v.is_array() || v.is_object())
    {
        if (v.is_object())
        {
            size_t i = 0;
            for (auto it = v.begin(); it != v.end(); ++it, ++i)
                if (n-- == 0)
                {
                    if (how > 4)
                        return false;
                    json::value c = it.value();
                    v.erase(it.key());
                    v[bad[how]] = c;
                    return true;
                }
        }
        for (auto& x : v)
            if (spoil(x, n, how))
                return true;
        return false;
    }
    if (n-- != 0)
        return false;
    static const double nf[] = { NAN, INFINITY, -INFINITY };
    v = how > 4 ? json::value(nf[how - 5]) : json::value(bad[how]);
    return true;
}

// sequences of operations sharing handlers and values: the model is the last failure's text
struct Step
{
    const char* name;
    bool        fails;
    std::function<void(json::value&, configor::error_handler*)> go;
};
static const std::vector<Step>& steps()
{
    using P = json::parser;
    using S = json::serializer;
    static const std::vector<Step> s = {
        { "parse good", false, [](json::value& v, configor::error_handler* h) { json::parse(v, "{\"a\":[1,2]}", { P::with_error_handler(h) }); } },
        { "parse, bad first character", true, [](json::value& v, configor::error_handler* h) { json::parse(v, "\f", { P::with_error_handler(h) }); } },
        { "parse, undecodable first character", true, [](json::value& v, configor::error_handler* h) { json::parse(v, "\x80", { P::with_error_handler(h) }); } },
        { "parse, bad in the middle", true, [](json::value& v, configor::error_handler* h) { json::parse(v, "{\"a\":[1,}", { P::with_error_handler(h) }); } },
        { "parse, bad end", true, [](json::value& v, configor::error_handler* h) { json::parse(v, "[1] 2", { P::with_error_handler(h) }); } },
        { "parse empty", true, [](json::value& v, configor::error_handler* h) { json::parse(v, "", { P::with_error_handler(h) }); } },
        { "parse a number out of range", true, [](json::value& v, configor::error_handler* h) { json::parse(v, "99999999999999999999", { P::with_error_handler(h) }); } },
        { "dump", false, [](json::value& v, configor::error_handler* h) { json::dump(v, { S::with_error_handler(h) }); } },
        { "dump a bad string", true, [](json::value& v, configor::error_handler* h) { json::value b = json::array{ v, "\xff" }; json::dump(b, { S::with_error_handler(h) }); } },
        { "dump NaN", true, [](json::value& v, configor::error_handler* h) { json::value b = json::array{ NAN, v }; json::dump(b, { S::with_error_handler(h) }); } },
    };
    return s;
}
static void sequence(mc::Ctx& cx, uint64_t i, unsigned depth)
{
    static std::vector<std::string> says;
    if (says.empty())
        for (auto& s : steps())
        {
            json::value v;
            says.push_back(run([&] { s.go(v, nullptr); }).what);
        }
    error_handler_with<error_policy::record> rec;
    error_handler_with<error_policy::ignore> ign;
    error_handler_with<error_policy::strict> str;
    Watch                                    w;
    json::value                              a, b, c, d;
    std::string                              model, trail;
    int                                      calls = 0;
    size_t                                   n = steps().size();
    for (unsigned k = 0; k < depth; ++k, i /= n)
    {
        auto&  s = steps()[i % n];
        auto&  what = says[i % n];
        trail += std::string(s.name) + "; ";
        if (s.fails)
            model = what, ++calls;
        auto o1 = run([&] { s.go(a, &rec); });
        auto o2 = run([&] { s.go(b, &ign); });
        auto o3 = run([&] { s.go(c, &str); });
        auto o4 = run([&] { s.go(d, &w); });
        cx.transition(4);
        if (o1.e || o2.e || o4.e || rec.error != model || w.calls != calls)
            cx.fail("after " + trail + "the record is '" + rec.error + "' instead of '" + model + "', calls " + std::to_string(w.calls) + " of " + std::to_string(calls) + ", " + name(o1.e) + ", " + name(o2.e) + ", " + name(o4.e));
        if ((o3.e != none) != s.fails || (s.fails && o3.what != what))
            cx.fail("after " + trail + "the strict handler let " + name(o3.e) + " '" + o3.what + "' out");
        if (i % n == 0)
            for (auto* v : { &a, &b, &c, &d })
                if (!ref::eq(from(*v), V::object({ { U"a", V::array({ V::integer(1), V::integer(2) }) } }), ref::Cmp()))
                    cx.fail("after " + trail + "a good document gave " + ref::show(from(*v)));
    }
    cx.trace();
    cx.eval();
    cx.outcome(mc::hash(model + std::to_string(calls)));
}

int main(int argc, char** argv)
{
    mc::Check ck;
    ck.id     = "C18";
    ck.part   = "main";
    ck.mem_mb = 0;
    bool th   = mc::is_thorough(argc, argv);
    ck.rule   = "every token word, every truncation and edit of a document and every value with one undumpable part, under no, null, strict, ignoring, recording, rethrowing, replacing and counting handlers; every sequence of "
                "operations sharing handlers; a case is distinct by the failure's message";
    ck.assumptions = { "the message without a handler is the reference for what is recorded; which texts fail is decided by the reference parser of C01" };
    static const std::vector<std::string> tok = { "[", "]", "{", "}", ",", ":", "1", "-", "1.5e3", "true", "nul", "\"a\"", "\"\\q\"", "\"\xc3\"", "\x80", " ", "/*x*/", "/*", "/", "\"\\ud800\"", "99999999999999999999", "\f" };
    static unsigned N = static_cast<unsigned>(tok.size());
    ck.add("texts", mc::words_upto(N, th ? 4 : 3), "every word of up to " + std::string(th ? "4" : "3") + " of 22 tokens by 4 routes under 10 handlers", [](mc::Ctx& cx, uint64_t i)
           {
               std::string t;
               for (auto k : mc::word(N, i))
                   t += tok[k];
               parsing<json, char>(cx, t);
           });
    ck.add("wide texts", mc::words_upto(N, 2), "every word of up to 2 tokens, wide and across widths", [](mc::Ctx& cx, uint64_t i)
           {
               std::wstring w;
               for (auto k : mc::word(N, i))
                   for (unsigned char c : tok[k])
                       w.push_back(c < 128 ? c : 0xD800);
               parsing<wjson, wchar_t>(cx, w);
               parsing<json, wchar_t>(cx, w);
           });
    ck.add("documents", all_documents().size(), "documents with every kind of token, escape, number, character and error, narrow, wide and across widths, and the dumping of their values", [](mc::Ctx& cx, uint64_t i)
           {
               auto& d = all_documents()[i];
               auto  w = wide_document<wchar_t>(d);
               parsing<json, char>(cx, d);
               parsing<wjson, char>(cx, d);
               parsing<wjson, wchar_t>(cx, w);
               parsing<json, wchar_t>(cx, w);
               V r;
               if (ref::parse(ref::dec(d), r) == ref::Ok)
               {
                   dumping<json, char>(cx, to<json::value>(r), false, ref::show(r));
                   dumping<wjson, wchar_t>(cx, to<wjson::value>(r), false, ref::show(r));
               }
           });
    static const std::string doc = "/*c*/{\"k\\n\":[1,-2.5e-3,\"\xc3\xa9\\u20ac\xf0\x9d\x84\x9e\",true,false,null,{\"\":[]},{}],//e\n\"z\":{\"k\":0}} /**/";
    static const std::string subst("\0\x01 \"\\/*[]{},:x1-+.eEtu\n\x80\xc3\xff", 26);
    ck.add("truncations and edits", doc.size() * (2 + subst.size()), "every truncation, deletion and substitution by one of 26 bytes of a document with all kinds of tokens", [](mc::Ctx& cx, uint64_t i)
           {
               size_t      at = i % doc.size(), how = i / doc.size();
               std::string t = doc;
               if (how == 0)
                   t.resize(at);
               else if (how == 1)
                   t.erase(at, 1);
               else
                   t[at] = subst[how - 2];
               parsing<json, char>(cx, t);
           });
    ck.add("failures far in", (200 + mc::big_sizes) * 4, "a failure at the end of a document of every size below 200 and 12 sizes up to 131073: after elements, in a string, after white space, in a comment", [](mc::Ctx& cx, uint64_t i)
           {
               size_t      n = mc::size_at(i / 4, 200);
               std::string t = "[";
               switch (i % 4)
               {
               case 0:
                   for (size_t k = 0; k < n; ++k)
                       t += "1,";
                   t += "?]";
                   break;
               case 1:
                   t += "\"" + std::string(n, 'x') + "\\x";
                   break;
               case 2:
                   t += std::string(n, n % 2 ? '\n' : ' ') + ":";
                   break;
               case 3:
                   t += "/*" + std::string(n, '*');
                   break;
               }
               parsing<json, char>(cx, t);
           }, 300, 4);
    static trees::Space sp;
    sp.leaves = { V(), V::integer(-12), V::floating(0.5), V::string(U"\u00e9") };
    sp.keys   = { U"", U"k" };
    sp.build(th ? 5 : 4);
    ck.add("dumps", sp.size() * 9 * 8, "every tree of weight up to " + std::string(th ? "5" : "4") + " with each of its leaves and keys replaced by each of 8 undumpable things, and unchanged", [](mc::Ctx& cx, uint64_t i)
           {
               V        r = sp[i / 72];
               unsigned n = i / 8 % 9, how = i % 8;
               auto     v = to<json::value>(r);
               if (n == 8)
               {
                   if (how)
                       return;
                   dumping<json, char>(cx, v, false, ref::show(r));
                   dumping<json, wchar_t>(cx, v, false, ref::show(r));
                   return;
               }
               unsigned at = n;
               if (!spoil(v, at, how))
                   return;
               dumping<json, char>(cx, v, true, ref::show(r) + " spoilt at " + std::to_string(n) + " by " + std::to_string(how));
               if (how != 1 && i % 4 == 0)
                   dumping<json, wchar_t>(cx, v, true, ref::show(r) + " spoilt at " + std::to_string(n) + " by " + std::to_string(how));
           });
    static unsigned depth = th ? 6 : 5;
    uint64_t        seqs  = 1;
    for (unsigned k = 0; k < depth; ++k)
        seqs *= steps().size();
    ck.add("sequences", seqs, "every sequence of " + std::to_string(depth) + " of 10 operations sharing one handler of each policy", [](mc::Ctx& cx, uint64_t i) { sequence(cx, i, depth); });
    return mc::run(ck, argc, argv);
}
