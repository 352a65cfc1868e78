// C21: independent uses in different threads do not affect one another.
#include "../engine/mc.hpp"
#include "sched.hpp"
#include "tour.hpp"
#include <configor/json.hpp>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <sys/wait.h>
using configor::json;
using configor::wjson;
using configor::value_constant;
using configor::error_handler_with;
using configor::error_policy;
using Str = std::string;

// sources and sinks of the caller: a point at every character
template <class Ch>
struct Source : std::basic_streambuf<Ch>
{
    using T = std::char_traits<Ch>;
    std::basic_string<Ch> t;
    size_t                p = 0;
    explicit Source(std::basic_string<Ch> s)
        : t(std::move(s))
    {
    }
    typename T::int_type underflow() override
    {
        sched::point();
        return p < t.size() ? T::to_int_type(t[p]) : T::eof();
    }
    typename T::int_type uflow() override
    {
        sched::point();
        return p < t.size() ? T::to_int_type(t[p++]) : T::eof();
    }
};
template <class Ch>
struct Sink : std::basic_streambuf<Ch>
{
    using T = std::char_traits<Ch>;
    std::basic_string<Ch> t;
    typename T::int_type overflow(typename T::int_type c) override
    {
        sched::point();
        t.push_back(T::to_char_type(c));
        return c;
    }
};
struct In : configor::iadapter
{
    Str    t;
    size_t p = 0;
    char   read() override
    {
        sched::point();
        return p < t.size() ? t[p++] : static_cast<char>(EOF);
    }
};
struct Out : configor::oadapter
{
    Str  t;
    void write(const char c) override
    {
        sched::point();
        t.push_back(c);
    }
};
struct User
{
    int                        id = 0;
    Str                        name;
    std::vector<Str>           tags;
    std::map<Str, double>      m;
    std::shared_ptr<int>       p;
    CONFIGOR_BIND(json::value, User, REQUIRED(id), REQUIRED(name), OPTIONAL(tags), OPTIONAL(m), OPTIONAL(p))
};

// thread number t's own data: the same shape, other content
static Str own(Str s, int t)
{
    for (auto& c : s)
        if (c == '7')
            c = static_cast<char>('1' + t * 3);
        else if (c == 'q')
            c = static_cast<char>('a' + t * 3);
    return s;
}
static std::wstring wide(const Str& s) { return std::wstring(s.begin(), s.end()); }
static Str          narrow(const std::wstring& s)
{
    Str r;
    for (auto c : s)
        r += c < 128 ? Str(1, static_cast<char>(c)) : "<" + std::to_string(static_cast<long>(c)) + ">";
    return r;
}
static Str text(const json::value& v)  // without the library's serializer
{
    switch (v.type())
    {
    case value_constant::null: return "null";
    case value_constant::boolean: return v.data().boolean ? "true" : "false";
    case value_constant::integer: return std::to_string(v.data().integer);
    case value_constant::floating:
    {
        char b[40];
        std::snprintf(b, sizeof b, "%a", v.data().floating);
        return b;
    }
    case value_constant::string: return "'" + *v.data().string + "'";
    case value_constant::array:
    {
        Str s = "[";
        for (auto& x : *v.data().vector)
            s += text(x) + ",";
        return s + "]";
    }
    case value_constant::object:
    {
        Str s = "{";
        for (auto& x : *v.data().object)
            s += x.first + ":" + text(x.second) + ",";
        return s + "}";
    }
    }
    return "?";
}
static Str wtext(const wjson::value& v)
{
    return narrow(wjson::dump<wchar_t>(v));
}
template <class F>
static Str error_of(F f)
{
    try
    {
        f();
    }
    catch (const configor::configor_exception& e)
    {
        return Str("error ") + e.what();
    }
    catch (const std::exception& e)
    {
        return Str("exception ") + e.what();
    }
    return "no error";
}
static const json::value* shared;  // read by every thread
static json::value        make_shared_value()
{
    json::value v;
    v["name"]  = "shared \xc3\xa9\xf0\x9d\x84\x9e";
    v["list"]  = json::array{ 1, 2.5, true, nullptr, "x" };
    v["inner"] = json::object{ { "k", json::array{ "a", "b" } }, { "z", -1 } };
    return v;
}

struct Op
{
    const char* name;
    Str (*f)(int);
};
static const Op base[] = {
    { "parse a string", [](int t) { return text(json::parse(own("{\"kq\":[7,-7.5e7,\"q\\u0071\"],\"y\":true}", t))); } },
    { "parse a caller's stream", [](int t)
      {
          Source<char> b(own("[7,\"q\\n\\ud834\\udd1e\",/**/7.25]", t));
          std::istream is(&b);
          return text(json::parse(is));
      } },
    { "parse a bad text", [](int t) { return error_of([&] { json::parse(own("[7,\"q\", tru]", t)); }) + error_of([&] { json::parse(own("{\"q\":7 7", t)); }); } },
    { "parse a bad text, recorded", [](int t)
      {
          error_handler_with<error_policy::record> h;
          json::value v;
          json::parse(v, own("[7,\"\\uq\"]", t), { json::parser_type<char>::with_error_handler(&h) });
          json::parse(v, own("[77]", t), { json::parser_type<char>::with_error_handler(&h) });
          return h.error + text(v);
      } },
    { "extract twice", [](int t)
      {
          Source<char> b(own("\"q7\"", t));
          std::istream is(&b);
          json::value  v;
          is >> json::wrap(v);
          return text(v) + (is.fail() ? "fail" : "");
      } },
    { "parse an adapter", [](int t)
      {
          In a;
          a.t = own("{\"q\":[7.5,77]}", t);
          configor::iadapterstream is(a);
          return text(json::parse(is));
      } },
    { "parse wide and 16 bit text", [](int t)
      {
          Str            s = own("[\"q\\u00e9\",7,0.7]", t);
          std::u16string u(s.begin(), s.end());
          return text(json::parse(u)) + wtext(wjson::parse(wide(s)));
      } },
    { "dump", [](int t)
      {
          json::value v = json::object{ { own("q", t), json::array{ t, t + 0.125, own("q\n\x01", t) } }, { "b", false } };
          return json::dump(v);
      } },
    { "dump to a caller's stream, indented", [](int t)
      {
          json::value  v = json::array{ t * 11, own("\xc3\xa9q", t), json::array{ t * 1.5 } };
          Sink<char>   b;
          std::ostream os(&b);
          using S = json::serializer_type<char>;
          json::dump(os, v, { S::with_indent(static_cast<uint8_t>(2 + t), ' '), S::with_precision(3 + t), S::with_unicode_escaping(t == 1) });
          return b.t;
      } },
    { "insert with the stream's settings", [](int t)
      {
          Sink<char>   b;
          std::ostream os(&b);
          os.precision(3 + t);
          os.width(1 + t);
          os.fill(t ? ' ' : '\t');
          json::value v = json::array{ t / 3.0, t };
          os << json::wrap(v);
          return b.t;
      } },
    { "dump to an adapter", [](int t)
      {
          Out a;
          configor::oadapterstream os(a);
          json::dump(os, json::value(json::array{ t, own("q7", t), t / 8.0 }));
          return a.t;
      } },
    { "dump wide", [](int t)
      {
          wjson::value v;
          v[own("q", t) == "a" ? L"a" : L"other"] = wide(own("q7", t)) + L"\u00e9";
          v[L"n"]                               = t * 1.25;
          return narrow(wjson::dump(v)) + narrow(json::dump<wchar_t>(json::value(own("q7", t))));
      } },
    { "dump a bad value", [](int t) { return error_of([&] { json::dump(json::value(json::array{ t, "\xff" })); }) + error_of([&] { json::dump(json::value(std::numeric_limits<double>::infinity())); }); } },
    { "build and change", [](int t)
      {
          json::value v;
          v[own("q", t)][2]["x"] = t;
          v[own("q", t)].push_back(own("q7", t));
          v["l"]                 = json::array{ t, nullptr };
          v["l"].erase(0);
          json::value c = v;
          c["l"][1] = 7 * t;
          v.swap(c);
          c.clear();
          return text(v) + text(c) + std::to_string(v.size());
      } },
    { "misuse", [](int t)
      {
          json::value v = t;
          const json::value a = json::array{ t };
          return error_of([&] { v["k"] = 1; }) + error_of([&] { v.push_back(1); }) + error_of([&] { a.at(5); }) + error_of([&] { (void)a.get<Str>(); }) + error_of([&] { (void)*v.end(); });
      } },
    { "convert a struct", [](int t)
      {
          User u;
          u.id   = t * 5;
          u.name = own("q7", t);
          u.tags = { own("q", t), "x" };
          u.m[own("7", t)] = t * 0.5;
          u.p    = std::make_shared<int>(t);
          json::value v = u;
          User        w = v.get<User>();
          return text(v) + w.name + w.tags.at(0) + std::to_string(w.id) + std::to_string(*w.p);
      } },
    { "convert containers", [](int t)
      {
          std::vector<std::list<int>> l{ { t, 2 }, {}, { t * 3 } };
          std::map<Str, std::set<Str>> m{ { own("q", t), { own("7", t), "x" } } };
          json::value a = l, b = m;
          auto        x = a.get<std::vector<std::list<int>>>();
          auto        y = b.get<std::map<Str, std::set<Str>>>();
          return text(a) + text(b) + (x == l && y == m ? "same" : "different");
      } },
    { "read the shared value", [](int t)
      {
          const json::value& s = *shared;
          Str                r = text(s) + std::to_string(s.size()) + std::to_string(s["list"].size()) + s["name"].get<Str>() + std::to_string(s.count("name"));
          for (auto it = s.begin(); it != s.end(); ++it)
              r += it.key();
          for (auto it = s["list"].rbegin(); it != s["list"].rend(); ++it)
              r += text(*it);
          r += std::to_string(s["list"].at(0).get<int>() + t) + *s["name"].get<const Str*>() + s["inner"]["k"].get<std::vector<Str>>()[1];
          r += s.find("zz") == s.end() ? "none" : "some";
          return r + std::to_string(s["inner"]["z"].get<const int64_t&>());
      } },
    { "dump the shared value", [](int t)
      {
          Sink<char>   b;
          std::ostream os(&b);
          json::dump(os, *shared);
          using S = json::serializer_type<char>;
          return b.t + json::dump(*shared, { S::with_indent(static_cast<uint8_t>(1 + t), '\t'), S::with_unicode_escaping(true) });
      } },
    { "copy and compare the shared value", [](int t)
      {
          json::value c = *shared;
          Str         r = c == *shared ? "equal" : "unequal";
          c["list"][size_t(0)] = t + 5;
          r += *shared < c ? "<" : ">=";
          r += c != *shared ? "changed" : "same";
          r += (*shared)["inner"]["z"] == -1 ? "y" : "n";
          json::value l = (*shared)["list"];
          l = l[4];
          return r + text(c) + text(l);
      } },
    { "move values around", [](int t)
      {
          json::value a = json::array{ own("a string long enough to live on the heap q", t), t };
          json::value b = std::move(a);
          a             = b[size_t(0)];
          b.push_back(std::move(a));
          json::value c(value_constant::object);
          c["k"] = std::move(b);
          return text(a) + text(b) + text(c);
      } },
};
constexpr int NOPS = sizeof base / sizeof *base;
constexpr int NALL = NOPS + tour::NSTOPS;  // then the stops of the tour
struct Ops
{
    Op o[NALL];
    Ops()
    {
        for (int i = 0; i < NALL; ++i)
            o[i] = i < NOPS ? base[i] : Op{ tour::stops()[i - NOPS].name, tour::stops()[i - NOPS].f };
    }
    const Op& operator[](int i) const { return o[i]; }
};
static const Ops ops;
static Str  expected[NALL][3];
static long npoints[NALL][3];

struct Call
{
    int         op, t;
    std::string result;
};
static void call(void* p)
{
    Call* c = static_cast<Call*>(p);
    try
    {
        c->result = ops[c->op].f(c->t);
    }
    catch (const std::exception& e)
    {
        c->result = Str("ended with the exception ") + e.what();
    }
    catch (...)
    {
        c->result = "ended with an exception";
    }
}
static std::string schedule(const int* op, int n, int first, const long* plan, int planned)
{
    std::string s = "threads";
    for (int i = 0; i < n; ++i)
        s += std::string(i ? ", " : " ") + std::to_string(i) + ": " + ops[op[i]].name;
    s += "; thread " + std::to_string(first) + " first";
    for (int i = 0; i < planned; ++i)
        s += ", switch after " + std::to_string(plan[i]) + " points";
    return s;
}
// one schedule; the message of a violation, or ""
static std::string one(const int* op, int n, int first, const long* plan, int planned)
{
    static Call c[3];
    sched::Job  j[3];
    for (int i = 0; i < n; ++i)
    {
        c[i].op = op[i], c[i].t = i;
        c[i].result.clear();
        j[i] = { i, call, &c[i] };
    }
    sched::run(n, j, first, plan, planned);
    for (int i = 0; i < n; ++i)
        if (c[i].result != expected[op[i]][i])
            return schedule(op, n, first, plan, planned) + ": thread " + std::to_string(i) + " got " + mc::show(c[i].result) + " instead of " + mc::show(expected[op[i]][i]);
    return "";
}
static void judge(mc::Ctx& cx, const int* op, int n, int first, const long* plan, int planned)
{
    cx.eval();
    cx.transition(static_cast<uint64_t>(planned) + static_cast<uint64_t>(n));
    cx.trace();
    if (cx.verbose)
        cx.note(schedule(op, n, first, plan, planned));
    auto m = one(op, n, first, plan, planned);
    if (!m.empty())
        cx.fail(m);
}
// the same in a process that has not used the library before
static void fresh(mc::Ctx& cx, const int* op, int n, int first, const long* plan, int planned)
{
    cx.eval();
    cx.transition(static_cast<uint64_t>(planned) + static_cast<uint64_t>(n));
    cx.trace();
    int fd[2];
    if (pipe(fd))
        throw mc::Fail{ "pipe" };
    pid_t p = fork();
    if (p == 0)
    {
        close(fd[0]);
        auto m = one(op, n, first, plan, planned);
        if (!m.empty())
            (void)!write(fd[1], m.data(), m.size());
        _exit(m.empty() ? 0 : 3);
    }
    close(fd[1]);
    std::string m;
    char        b[4096];
    for (ssize_t k; (k = read(fd[0], b, sizeof b)) > 0;)
        m.append(b, static_cast<size_t>(k));
    close(fd[0]);
    int st = 0;
    waitpid(p, &st, 0);
    if (st)
        cx.fail("in a fresh process, " + (m.empty() ? schedule(op, n, first, plan, planned) + ": " + (WIFEXITED(st) && WEXITSTATUS(st) == 66 ? "data race" : "the process crashed") : m));
}
static std::string slurp(int fd)
{
    std::string m;
    char        b[4096];
    for (ssize_t k; (k = read(fd, b, sizeof b)) > 0;)
        m.append(b, static_cast<size_t>(k));
    return m;
}
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=66:report_thread_leaks=0"; }

int main(int argc, char** argv)
{
    mc::Check ck;
    ck.id     = "C21";
    ck.part   = "main";
    ck.mem_mb = 0;
    bool th   = mc::is_thorough(argc, argv);
    // what each operation gives alone, from a process of its own: this one must not use the library yet
    {
        int fd[2];
        if (pipe(fd))
            return 2;
        pid_t p = fork();
        if (p == 0)
        {
            json::value v = make_shared_value();
            shared        = &v;
            for (int o = 0; o < NALL; ++o)
                for (int t = 0; t < 3; ++t)
                {
                    static Call c;
                    c.op = o, c.t = t;
                    sched::Job j = { 0, call, &c };
                    sched::run(1, &j, 0, nullptr, 0);
                    long        k = sched::S.points[0];
                    std::string m = std::to_string(k) + " " + std::to_string(c.result.size()) + " " + c.result;
                    (void)!write(fd[1], m.data(), m.size());
                }
            _exit(0);
        }
        close(fd[1]);
        std::istringstream is(slurp(fd[0]));
        int                st;
        waitpid(p, &st, 0);
        for (int o = 0; o < NALL; ++o)
            for (int t = 0; t < 3; ++t)
            {
                size_t n = 0;
                is >> npoints[o][t] >> n;
                is.get();
                expected[o][t].resize(n);
                if (n)
                    is.read(&expected[o][t][0], static_cast<std::streamsize>(n));
                if (!is)
                    std::fprintf(stderr, "operation %s cannot be run alone\n", ops[o].name);
            }
        if (std::getenv("C21_SHOW"))
            for (int o = 0; o < NALL; ++o)
                std::printf("%s: %ld points, %s\n", ops[o].name, npoints[o][1], mc::show(expected[o][1]).c_str());
    }
    static auto with_shared = [](std::function<void(mc::Ctx&, uint64_t)> f)
    {
        return [f](mc::Ctx& cx, uint64_t i)
        {
            static json::value v = make_shared_value();
            shared               = &v;
            f(cx, i);
        };
    };
    ck.rule = "every schedule of real threads within the preemption bound, where a switch can happen at every allocation and release of memory and every character moved through the caller's stream buffers and adapters; ThreadSanitizer watches every schedule and the hand-over does not order the threads in its eyes; a schedule is one evaluation and one validated trace";
    ck.assumptions = { "between two switching points a thread's steps are atomic for the results, but not for the race detection", "the C++ library's own code is not watched for races except through its templates" };
    ck.add("one preemption", NOPS * NOPS, "every ordered pair of 21 operations, every schedule with at most one preemption", with_shared([](mc::Ctx& cx, uint64_t i)
           {
               int op[2] = { static_cast<int>(i / NOPS), static_cast<int>(i % NOPS) };
               for (int first = 0; first < 2; ++first)
                   for (long a = 0; a <= npoints[op[first]][first]; ++a)
                   {
                       long plan[1] = { a };
                       judge(cx, op, 2, first, plan, a ? 1 : 0);
                   }
               cx.outcome(i);
               cx.state(i);
           }), 600, 1);
    static long lim = th ? 1000000 : 3000;
    ck.add("two preemptions", NOPS * NOPS, th ? "every ordered pair, every schedule with at most two preemptions" : "every ordered pair whose points allow it (product at most 3000), every schedule with at most two preemptions", with_shared([](mc::Ctx& cx, uint64_t i)
           {
               int op[2] = { static_cast<int>(i / NOPS), static_cast<int>(i % NOPS) };
               for (int first = 0; first < 2; ++first)
               {
                   long n = npoints[op[first]][first], m = npoints[op[1 - first]][1 - first];
                   if (n * m > lim)
                       continue;
                   for (long a = 1; a <= n; ++a)
                       for (long b = 1; b <= m; ++b)
                       {
                           long plan[2] = { a, b };
                           judge(cx, op, 2, first, plan, 2);
                       }
               }
               cx.outcome(i + 1000);
           }), 900, 1);
    ck.add("first uses", NOPS * NOPS, "every ordered pair in a fresh process, every schedule with at most one preemption" + std::string(th ? "" : ", the preemption at every third point"), [th](mc::Ctx& cx, uint64_t i)
           {
               int op[2] = { static_cast<int>(i / NOPS), static_cast<int>(i % NOPS) };
               // operations on the shared value need one, built before the threads start
               static json::value* v = nullptr;
               auto                needs = [](int o) { return o >= 17 && o <= 19; };
               if (needs(op[0]) || needs(op[1]))
                   return;
               (void)v;
               for (int first = 0; first < 2; ++first)
                   for (long a = 0; a <= npoints[op[first]][first]; a += th ? 1 : 3)
                   {
                       long plan[1] = { a };
                       fresh(cx, op, 2, first, plan, a ? 1 : 0);
                   }
               cx.outcome(i + 2000);
           }, 900, 1);
    ck.add("three threads", static_cast<uint64_t>(NOPS) * NOPS * NOPS, th ? "every triple of operations, every schedule with at most one preemption, at every fifth point" : "every triple of operations run one after another in every starting order", with_shared([th](mc::Ctx& cx, uint64_t i)
           {
               int op[3] = { static_cast<int>(i % NOPS), static_cast<int>(i / NOPS % NOPS), static_cast<int>(i / NOPS / NOPS) };
               for (int first = 0; first < (th ? 3 : 1); ++first)
                   for (long a = 0; a <= (th ? npoints[op[first]][first] : 0); a += 5)
                   {
                       long plan[1] = { a };
                       judge(cx, op, 3, first, plan, a ? 1 : 0);
                   }
               cx.outcome(i + 3000);
           }), 900, 16);
    constexpr int NT = tour::NSTOPS;
    ck.add("tour", NT, "every stop of a tour through the whole library in two threads, every schedule with at most one preemption" + std::string(th ? "" : ", the preemption at every second point"), with_shared([th](mc::Ctx& cx, uint64_t i)
           {
               int op[2] = { NOPS + static_cast<int>(i), NOPS + static_cast<int>(i) };
               for (int first = 0; first < 2; ++first)
                   for (long a = 0; a <= npoints[op[first]][first]; a += th ? 1 : 2)
                   {
                       long plan[1] = { a };
                       judge(cx, op, 2, first, plan, a ? 1 : 0);
                   }
               cx.outcome(i + 4000);
           }), 900, 1);
    ck.add("tour with others", NALL * NALL, "every ordered pair of operations and stops, one after the other", with_shared([](mc::Ctx& cx, uint64_t i)
           {
               int op[2] = { static_cast<int>(i / NALL), static_cast<int>(i % NALL) };
               judge(cx, op, 2, 0, nullptr, 0);
               cx.outcome(i + 5000);
           }), 900, 4);
    ck.add("first tour", NT, "every stop in two threads of a fresh process, every schedule with at most one preemption, at every " + std::string(th ? "second" : "tenth") + " point", [th](mc::Ctx& cx, uint64_t i)
           {
               int op[2] = { NOPS + static_cast<int>(i), NOPS + static_cast<int>(i) };
               for (long a = 0; a <= npoints[op[0]][0]; a += th ? 2 : 10)
               {
                   long plan[1] = { a };
                   fresh(cx, op, 2, 0, plan, a ? 1 : 0);
               }
               cx.outcome(i + 9000);
           }, 900, 1);
    return mc::run(ck, argc, argv);
}
