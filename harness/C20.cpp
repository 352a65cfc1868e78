// C20: running out of memory at any point is clean.  Every operation is run once for every allocation it
// makes, with that allocation (or all from it on) failing.
#include "kit.hpp"
#include "seq.hpp"
#include "tour.hpp"
#include <sstream>
using configor::error_handler_with;
using configor::error_policy;

static const std::string LONG = "a string that is certainly too long for the small string buffer";
static const std::string KEY  = "a key that is certainly too long for it as well";

struct Bound
{
    int                                       id = 0;
    std::string                               name;
    std::vector<std::string>                  tags;
    std::map<std::string, std::vector<double>> data;
    std::shared_ptr<Bound>                    next;
    std::string                               note;
    CONFIGOR_BIND(json::value, Bound, REQUIRED(id), REQUIRED(name), REQUIRED(tags), OPTIONAL(data), OPTIONAL(next), OPTIONAL(note))
};
static bool same(const Bound& a, const Bound& b)
{
    return a.id == b.id && a.name == b.name && a.tags == b.tags && a.data == b.data && a.note == b.note && !a.next == !b.next && (!a.next || same(*a.next, *b.next));
}

// one run of an operation with a chosen failure
struct Run
{
    mc::Ctx&    cx;
    std::string what;
    long        k    = -1;     // the allocation that fails, -1: none
    bool        from = false;  // all later ones, too
    long        total = 0;
    template <class F>
    Err go(F&& f)
    {
        heap::arm(from ? -1 : k, from ? k : -1);
        Err e = attempt(f);
        total = std::max(total, heap::disarm());
        return e;
    }
    bool        hit() const { return k >= 0 && heap::hit; }
    std::string name_() const
    {
        return what + (k < 0 ? std::string(" with memory available") : " with allocation " + std::to_string(k) + (from ? " and all later ones" : "") + " failing");
    }
    // e: how the operation ended; told: it reported a failure in another way; expect: how it must end
    // when memory is available; right: its result is the correct one
    template <class Right>
    bool judge(Err e, bool told, Err expect, Right&& right)
    {
        cx.eval();
        if (hit())
        {
            if (e == other || e == none && !told && expect != none)
                cx.fail(name_() + " ended with " + name(e));
            if (e != none || told)
                return false;
        }
        else if (e != expect)
            cx.fail(name_() + " ended with " + name(e) + ", it must end with " + name(expect));
        else if (expect == none && told)
            cx.fail(name_() + " reported a failure");
        if (e == none)
        {
            std::string wrong = right();
            if (!wrong.empty())
                cx.fail(name_() + " ended as if it had succeeded, but " + wrong);
        }
        return e == none;
    }
};
template <class Body>
static void probe(mc::Ctx& cx, const std::string& what, Body&& body)
{
    Run r{ cx, what };
    body(r);
    long total = 0;
    for (long k = -1; k < total || k < 0; ++k)
        for (int from = 0; from < (k < 0 ? 1 : 2); ++from)
        {
            r.k = k, r.from = from;
            // something kept for good by a first use is not a leak: the loss must repeat
            long lost = 0;
            for (int again = 0; again < 2; ++again)
            {
                long live = heap::live;
                body(r);
                lost = heap::live - live;
                if (!lost)
                    break;
            }
            if (lost)
                cx.fail(r.name_() + " lost " + std::to_string(lost) + " blocks of memory");
            if (k < 0)
                total = r.total;
            cx.transition();
        }
    cx.outcome(mc::hash(what) * 3 + static_cast<uint64_t>(total));
}
template <class Val>
static std::string differs(const Val& v, const V& want, const ref::Cmp& c = ref::Cmp())
{
    V g = from(v);
    return ref::eq(g, want, c) ? "" : "the value is " + ref::show(g) + " instead of " + ref::show(want);
}
template <class Val>
static void usable(mc::Ctx&, Val& v)  // walk it, change it, drop it
{
    (void)from(v);
    Val c(v);
    v = 1;
    v = std::move(c);
    (void)from(v);
}

// ---- parsing -----------------------------------------------------------------------------------
template <class Json, class Ch>
static void parse_all(mc::Ctx& cx, const U& text, unsigned routes)
{
    using Val = typename Json::value;
    using P   = typename Json::template parser_type<Ch>;
    const std::basic_string<Ch> t = ref::enc<Ch>(text);
    V                           want;
    auto                        st = ref::parse(text, want);
    if (st == ref::Either)
        return;
    Err         expect = st == ref::Ok ? none : deserialization;
    static const char* rn[] = { "a string", "a string into a value", "a C string", "a stream", "a stream into a value with a recording handler", "a wrapped stream", "an adapter", "a FILE", "a stream with chosen encodings" };
    for (unsigned route = 0; route < 9; ++route)
        if (routes >> route & 1)
            probe(cx, "parsing " + mc::shows(t) + " from " + rn[route], [&](Run& r)
                  {
                      Val v = to<Val>(V::object({ { U"old key that is long enough to allocate", V::array({ V::string(U"old") }) } }));
                      error_handler_with<error_policy::record> rec;
                      bool told = false;
                      Err  e    = other;
                      switch (route)
                      {
                      case 0: e = r.go([&] { v = Json::parse(t); }); break;
                      case 1: e = r.go([&] { Json::parse(v, t); }); break;
                      case 2: e = r.go([&] { v = Json::parse(t.c_str()); }); break;
                      case 3:
                      {
                          std::basic_istringstream<Ch> is(t);
                          e = r.go([&] { v = Json::parse(is); });
                          break;
                      }
                      case 4:
                      {
                          std::basic_istringstream<Ch> is(t);
                          e    = r.go([&] { Json::parse(v, is, { P::with_error_handler(&rec) }); });
                          told = !rec.error.empty();
                          if (!e && told && expect && !r.hit())
                              e = deserialization;
                          break;
                      }
                      case 5:
                          if constexpr (sizeof(Ch) == 1 || std::is_same<Ch, wchar_t>::value)
                          {
                              std::basic_istringstream<Ch> is(t);
                              e    = r.go([&] { is >> Json::wrap(v); });
                              told = is.fail();
                              if (!e && told && expect && !r.hit())
                                  e = deserialization;
                              break;
                          }
                          return;
                      case 6:
                          if constexpr (sizeof(Ch) == 1 || std::is_same<Ch, wchar_t>::value)
                          {
                              struct A : configor::basic_iadapter<Ch>
                              {
                                  const std::basic_string<Ch>* t;
                                  size_t                       p = 0;
                                  Ch                           read() override { return p < t->size() ? (*t)[p++] : static_cast<Ch>(std::char_traits<Ch>::eof()); }
                              } a;
                              a.t = &t;
                              e   = r.go([&]
                                       {
                                           configor::basic_iadapterstream<Ch> is(a);
                                           v = Json::parse(is);
                                       });
                              break;
                          }
                          return;
                      case 7:
                          if constexpr (sizeof(Ch) == 1)
                          {
                              if (t.empty())
                                  return;
                              FILE* f = fmemopen(const_cast<char*>(t.data()), t.size(), "r");
                              e       = r.go([&] { v = Json::template parse<char>(f); });
                              std::fclose(f);
                              break;
                          }
                          return;
                      default:
                      {
                          std::basic_istringstream<Ch> is(t);
                          e = r.go([&] { v = Json::parse(is, { P::template with_encoding<configor::encoding::auto_utf>() }); });
                          break;
                      }
                      }
                      r.judge(e, told, expect, [&] { return differs(v, want, ref::literal_cmp()); });
                      usable(cx, v);
                      if (expect == none)
                      {
                          Json::parse(v, t);
                          auto w = differs(v, want, ref::literal_cmp());
                          if (!w.empty())
                              cx.fail(r.name_() + ", repeated: " + w);
                      }
                  });
}
// ---- dumping -----------------------------------------------------------------------------------
template <class Json, class Ch>
static void dump_all(mc::Ctx& cx, const V& x, unsigned options)
{
    using Val   = typename Json::value;
    using S     = typename Json::template serializer_type<Ch>;
    using Str   = std::basic_string<Ch>;
    const Val v = to<Val>(x);
    Str       full;
    Err       expect  = none;
    auto      dump_to = [&](std::basic_ostream<Ch>& os, configor::error_handler* h)
    {
        auto eh = S::with_error_handler(h);
        if (options == 1)
            Json::dump(os, v, { eh, S::with_indent(2, Ch(' ')), S::with_precision(3, std::ios_base::fixed) });
        else if (options == 2)
            Json::dump(os, v, { eh, S::with_unicode_escaping(true), S::with_indent(255, Ch('\t')) });
        else
            Json::dump(os, v, { eh });
    };
    auto dump_str = [&]
    {
        return options == 1 ? Json::template dump<Ch>(v, { S::with_indent(2, Ch(' ')), S::with_precision(3, std::ios_base::fixed) })
               : options == 2 ? Json::template dump<Ch>(v, { S::with_unicode_escaping(true), S::with_indent(255, Ch('\t')) }) : Json::template dump<Ch>(v);
    };
    expect = attempt([&] { full = dump_str(); });
    if (expect && expect != serialization)
        cx.fail("dumping " + ref::show(x) + " ended with " + name(expect));
    for (unsigned route = 0; route < 6; ++route)
    {
        static const char* rn[] = { "to a string", "onto a string", "to a stream", "to a stream with a recording handler", "wrapped", "to an adapter" };
        if (route == 4 && options)
            continue;
        probe(cx, "dumping " + ref::show(x) + " " + rn[route] + " (options " + std::to_string(options) + ")", [&](Run& r)
              {
                  Str  s;
                  bool told = false, all = true;
                  Err  e = other;
                  const Str before = route == 1 ? Str(40, Ch('x')) : Str();
                  error_handler_with<error_policy::record> rec;
                  switch (route)
                  {
                  case 0: e = r.go([&] { s = dump_str(); }); break;
                  case 1:
                      s = before;
                      if (options == 0)
                          e = r.go([&] { Json::template dump<Ch>(s, v); });
                      else if (options == 1)
                          e = r.go([&] { Json::template dump<Ch>(s, v, { S::with_indent(2, Ch(' ')), S::with_precision(3, std::ios_base::fixed) }); });
                      else
                          e = r.go([&] { Json::template dump<Ch>(s, v, { S::with_unicode_escaping(true), S::with_indent(255, Ch('\t')) }); });
                      break;
                  case 2:
                  case 3:
                  case 4:
                  {
                      std::basic_ostringstream<Ch> os;
                      if (route == 4)
                          e = r.go([&] { os << Json::wrap(v); });
                      else
                          e = r.go([&] { dump_to(os, route == 3 ? &rec : nullptr); });
                      told = !rec.error.empty();
                      if (!e && told && expect && !r.hit())
                          e = serialization;
                      s = os.str();
                      break;
                  }
                  default:
                  {
                      struct A : configor::basic_oadapter<Ch>
                      {
                          Str* s;
                          void write(const Ch c) override { s->push_back(c); }
                      } a;
                      a.s = &s;
                      e   = r.go([&]
                               {
                                   configor::basic_oadapterstream<Ch> os(a);
                                   dump_to(os, nullptr);
                               });
                      break;
                  }
                  }
                  (void)all;
                  r.judge(e, told, expect, [&] { return s == before + full ? std::string() : "the text is " + mc::shows(s) + " instead of " + mc::shows(full); });
                  auto w = differs(v, x);
                  if (!w.empty())
                      cx.fail(r.name_() + ": the dumped value changed, " + w);
                  Str again;
                  if (attempt([&] { again = dump_str(); }) != expect || again != (expect ? Str() : full))
                      cx.fail(r.name_() + ", repeated, gave " + mc::shows(again) + " instead of " + mc::shows(full));
              });
    }
}
// ---- copies, comparisons, building -------------------------------------------------------------
static void copies(mc::Ctx& cx, const V& x, const V& y)
{
    using Val   = json::value;
    const Val a = to<Val>(x), b = to<Val>(y);
    auto      sources = [&](Run& r)
    {
        auto w = differs(a, x) + differs(b, y);
        if (!w.empty())
            cx.fail(r.name_() + ": an operand changed, " + w);
    };
    probe(cx, "copying " + ref::show(x), [&](Run& r)
          {
              r.what = "copying " + ref::show(x);
              Val v;
              Err e = r.go([&] { Val c(a); v.swap(c); });
              r.judge(e, false, none, [&] { return differs(v, x); });
              sources(r);
          });
    probe(cx, "assigning " + ref::show(y) + " over " + ref::show(x), [&](Run& r)
          {
              Val v(a);
              Err e = r.go([&] { v = b; });
              if (!r.judge(e, false, none, [&] { return differs(v, y); }))
                  usable(cx, v);
              v = b;
              if (v != b && from(v).k != ref::Float)
                  cx.fail(r.name_() + ", repeated, gave " + ref::show(from(v)));
              sources(r);
          });
    probe(cx, "assigning to its own element from " + ref::show(x), [&](Run& r)
          {
              Val v(a);
              if (!v.is_array() || v.empty())
                  return;
              Err e = r.go([&] { v = v[size_t(0)]; });
              if (!r.judge(e, false, none, [&] { return differs(v, x.a[0]); }))
                  usable(cx, v);
              sources(r);
          });
    probe(cx, "a list of " + ref::show(x) + " and " + ref::show(y), [&](Run& r)
          {
              Val v;
              Err e = r.go([&] { v = json::array{ a, b, LONG, a }; });
              r.judge(e, false, none, [&] { return differs(v, V::array({ x, y, V::string(ref::ascii(LONG.c_str())), x })); });
              Val o;
              e = r.go([&] { o = json::object{ { KEY, a }, { "z", b }, { KEY + "2", LONG } }; });
              r.judge(e, false, none, [&] { return differs(o, V::object({ { ref::ascii(KEY.c_str()), x }, { ref::ascii((KEY + "2").c_str()), V::string(ref::ascii(LONG.c_str())) }, { U"z", y } })); });
              sources(r);
          });
    probe(cx, "an object of " + ref::show(x) + " and " + ref::show(y), [&](Run& r)
          {
              Val o;
              Err e = r.go([&] { o = json::object{ { KEY, a }, { "z", b }, { KEY + "2", LONG } }; });
              r.judge(e, false, none, [&] { return differs(o, V::object({ { ref::ascii(KEY.c_str()), x }, { ref::ascii((KEY + "2").c_str()), V::string(ref::ascii(LONG.c_str())) }, { U"z", y } })); });
              sources(r);
          });
    probe(cx, "comparing " + ref::show(x) + " and " + ref::show(y), [&](Run& r)
          {
              bool eq = false, lt = false, ge = false, sc = false;
              const bool weq = a == b, wlt = a < b, wge = a >= b, wsc = a == LONG.c_str();
              Err  e  = r.go([&] { eq = a == b, lt = a < b, ge = a >= b, sc = a == LONG.c_str(); });
              r.judge(e, false, none, [&] { return eq == weq && lt == wlt && ge == wge && sc == wsc ? "" : "the comparison gave another answer"; });
              sources(r);
          });
    probe(cx, "reading " + ref::show(x), [&](Run& r)
          {
              std::string s = LONG;
              const bool  is = x.k == ref::Str;
              Err         e  = r.go([&] { s = a.get<std::string>(); });
              r.judge(e, false, is ? none : type_error, [&] { return s == ref::utf8(x.s) ? "" : "the string is " + s; });
              std::string t = LONG;
              bool        ok = false;
              Val         c;
              e = r.go([&] { c = a.get<Val>(); });
              r.judge(e, false, none, [&] { return differs(c, x); });
              e = r.go([&] { ok = a.get(t); });
              r.judge(e, !ok && r.hit(), none, [&] { return ok == is && t == (is ? ref::utf8(x.s) : LONG) ? "" : "the string is " + t; });
              sources(r);
          });
}
// ---- operation sequences -----------------------------------------------------------------------
static seq::Explorer build(bool)
{
    using namespace seq;
    Explorer  e;
    const V   s = V::string(ref::ascii(LONG.c_str())), arr = V::array({ V::integer(1), s }), obj = V::object({ { ref::ascii(KEY.c_str()), s } });
    const char* key = KEY.c_str();
    std::vector<Place> places = { at(0), at(0, 1), at(0, key), at(at(0, 0), key), at(1) };
    for (auto& p : places)
    {
        for (auto& v : { s, arr, obj, V::integer(7) })
        {
            e.ops.push_back(opc(AssignConst, p, v));
            e.ops.push_back(opc(PushConst, p, v));
        }
        e.ops.push_back(opc(Emplace, p, s));
        e.ops.push_back(op(Touch, p));
        e.ops.push_back(op(Clear, p));
        e.ops.push_back(opi(EraseIdx, p, 0));
        e.ops.push_back(opi(EraseIt, p, 0));
        e.ops.push_back(opi(EraseRange, p, 0, 9));
        e.ops.push_back(opk(EraseKey, p, key));
        for (auto& q : { at(0), at(1), at(1, 0), at(0, key) })
        {
            e.ops.push_back(op(Copy, p, q));
            e.ops.push_back(op(Move, p, q));
            e.ops.push_back(op(Push, p, q));
            e.ops.push_back(op(PushMove, p, q));
            e.ops.push_back(op(CopyThrough, p, q));
        }
    }
    e.max_weight = 9;
    return e;
}
static void sequence_node(mc::Ctx& cx, const seq::Explorer& e, size_t n)
{
    using namespace seq;
    auto   p = e.path(n);
    MState m(e.vars);
    for (auto k : p)
        m_apply(m, e.ops[k]);
    for (auto& o : e.ops)
    {
        MState after = m;
        Res    want  = m_apply(after, o);
        if (want.skip || e.cut(after))
            continue;
        probe(cx, "after " + e.describe(p) + "the operation " + o.name(), [&](Run& r)
              {
                  RState s(e.vars);
                  for (auto k : p)
                      (void)r_apply(cx, s, e.ops[k]);
                  Res got;
                  Err x = r.go([&] { got = r_apply(cx, s, o); });
                  if (x)
                      cx.fail(r.name_() + ": " + name(x));
                  auto state = [&]() -> std::string
                  {
                      for (size_t i = 0; i < e.vars; ++i)
                          if (!ref::eq(from(s[i]), after[i], ref::Cmp()))
                              return "the variables are then " + ref::show(from(s[0])) + ", " + ref::show(from(s[1])) + " instead of " + show(after);
                      return "";
                  };
                  bool done = r.judge(got.e, false, want.e, state);
                  if (!done && r.hit())
                  {
                      // a variable the operation does not touch keeps its value; the others stay valid
                      for (size_t i = 0; i < e.vars; ++i)
                          if (static_cast<int>(i) != o.dst.var && !((o.act == Move || o.act == PushMove) && static_cast<int>(i) == o.src.var) && !ref::eq(from(s[i]), m[i], ref::Cmp()))
                              cx.fail(r.name_() + " changed another variable to " + ref::show(from(s[i])));
                      Res again = r_apply(cx, s, o);
                      auto w    = state();
                      if (again.e != want.e || !w.empty())
                          cx.fail(r.name_() + ", repeated with memory available, ended with " + name(again.e) + "; " + w);
                  }
                  for (auto& v : s)
                      usable(cx, v);
              });
    }
    cx.state(mc::mix(n));
}
// ---- conversions -------------------------------------------------------------------------------
static mc::Check ck;
template <class Val, class T>
static void convert(mc::Ctx& cx, uint64_t i)
{
    const unsigned B   = size_budget<T>();
    const T        obj = K<T>::make(B, i);
    const V        x   = K<T>::shape(obj);
    T              want{};
    Load           l = K<T>::load(x, want);
    probe(cx, "making a value from " + K<T>::name() + " " + ref::show(x), [&](Run& r)
          {
              Val v;
              Err e = r.go([&] { Val t(obj); v.swap(t); });
              r.judge(e, false, none, [&] { return differs(v, x); });
              Val w = to<Val>(V::array({ V::integer(1), V::string(U"old old old old old old old") }));
              e     = r.go([&] { w = obj; });
              r.judge(e, false, none, [&] { return differs(w, x); });
              usable(cx, w);
          });
    const Val v(obj);
    if (l != Ok)
        return;
    auto reads = [&](int how)
    {
        probe(cx, "reading " + ref::show(x) + " as " + K<T>::name(), [&](Run& r)
              {
                  T    got = how == 2 ? K<T>::make(B, (i * 7 + 3) % K<T>::count(B)) : T{};
                  bool ok  = true;
                  Err  e   = how == 0 ? r.go([&] { got = v.template get<T>(); }) : r.go([&] { ok = v.get(got); });
                  r.judge(e, !ok, none, [&] { return K<T>::same(got, want) ? "" : "the object is another one"; });
                  (void)K<T>::shape(got);
                  if (how && (!v.get(got) || !K<T>::same(got, want)))
                      cx.fail(r.name_() + ", repeated, gave another object");
                  auto w = differs(v, x);
                  if (!w.empty())
                      cx.fail(r.name_() + " changed the value, " + w);
              });
    };
    reads(0);
    reads(1);
    reads(2);
}
template <class Val, class T>
static void conv(bool th)
{
    cap    = th ? 400 : 60;
    budget = th ? 5 : 4;
    uint64_t n = K<T>::count(size_budget<T>());
    ck.add("objects " + K<T>::name(), n, "every object of this type within size budget " + std::to_string(size_budget<T>()), [](mc::Ctx& cx, uint64_t i) { convert<Val, T>(cx, i); }, 120, 8);
}
static void bound(mc::Ctx& cx, uint64_t i)
{
    auto make = [](uint64_t i)
    {
        Bound b;
        b.id   = static_cast<int>(i);
        b.name = i & 1 ? LONG : "n";
        if (i & 2)
            b.tags = { "t", LONG };
        if (i & 4)
            b.data[KEY] = { 1.5, -2.5 };
        if (i & 8)
        {
            b.next       = std::make_shared<Bound>();
            b.next->name = LONG;
            b.next->tags = { KEY };
        }
        if (i & 16)
            b.note = LONG;
        return b;
    };
    const Bound b = make(i);
    json::value v;
    probe(cx, "making a value from struct " + std::to_string(i), [&](Run& r)
          {
              static V shape;
              json::value w;
              if (r.k < 0)
              {
                  w     = b;
                  shape = from(w);
              }
              json::value u;
              Err         e = r.go([&] { json::value t(b); u.swap(t); });
              r.judge(e, false, none, [&] { return differs(u, shape); });
              std::ostringstream os;
              const std::string  full = json::dump(json::value(b));
              e                       = r.go([&] { os << json::wrap(b); });
              r.judge(e, false, none, [&] { return os.str() == full ? "" : "the text is " + os.str(); });
          });
    v = b;
    probe(cx, "reading struct " + std::to_string(i), [&](Run& r)
          {
              Bound got = make(31 - i), fresh;
              bool  ok  = false;
              Err   e   = r.go([&] { fresh = v.get<Bound>(); });
              r.judge(e, false, none, [&] { return same(fresh, b) ? "" : "the struct is another one"; });
              Bound in;
              e = r.go([&] { ok = v.get(in); });
              r.judge(e, !ok, none, [&] { return same(in, b) ? "" : "the struct is another one"; });
              if (!v.get(in) || !same(in, b))
                  cx.fail(r.name_() + ", repeated, gave another struct");
              std::istringstream is(json::dump(v));
              e = r.go([&] { is >> json::wrap(got); });
              r.judge(e, false, none, [&] { return same(got, b) ? "" : "the struct is another one"; });
          });
}

int main(int argc, char** argv)
{
    ck.id     = "C20";
    ck.part   = "main";
    ck.mem_mb = 0;
    bool th   = mc::is_thorough(argc, argv);
    ck.rule   = "every operation of the stated bounds is run once without a failure, counting its allocations n, and 2n times more with allocation k, or all from k on, failing; transitions counts these runs, and a case is distinct by operation and number of allocations";
    ck.assumptions = { "memory means the global operator new (C's allocation functions, as used by FILE, are not made to fail)", "an operation that fails may leave its own target in any valid state; an ignoring error handler also ignores these failures and is not used" };
    static const U                L    = ref::ascii(LONG.c_str()), k = ref::ascii(KEY.c_str());
    static const std::vector<U>   tok  = { U"[", U"]", U"{", U"}", U",", U":", U"12", U"-0.5", U"true", U"null", U"\"" + L + U"\"", U"\"k\\u00e9\"" };
    static const unsigned         N    = static_cast<unsigned>(tok.size());
    static const std::vector<U>   docs = {
        U"[1,2,3]", U"{\"a\":1,\"b\":[true,false,null]}", U"\"" + L + U"\"", U"{\"" + k + U"\":\"" + L + U"\",\"" + k + U"2\":[\"" + L + U"\",{\"" + k + U"\":{}}]}", U"[[[[[]]]]]", U"/*" + L + U"*/[1]//" + L, U"1.5", U"123456789012345678", U"99999999999999999999999",
        U"\"\\ud834\\udd1e" + L + U"\\n\\u0000x\"", U"[\"" + L + U"\",\"" + L + U"\",\"" + L + U"\",\"" + L + U"\",\"" + L + U"\"]", U"{\"a\":{\"b\":{\"c\":{\"d\":\"" + L + U"\"}}}}", U"[" + L, U"{\"" + k + U"\":tru}", U"\"" + L, U"{\"" + k + U"\":1,\"" + k + U"\":\"" + L + U"\"}",
        U"0.000000000000000000000000000000000000012345678901234567890123456789", U"[1e400]", U"[-9223372036854775808,9223372036854775807,1e300]", U"", U"nul", U"\"\\ud800\"", U"[1,\"" + L + U"\",2.5,]", U"\"\u00e9\u4e2d\U0001d11e" + L + L + L + L + U"\"", U"[" + U(60, U' ') + U"1" + U(200, U'0') + U".5]" };
    ck.add("documents", docs.size(), "25 documents by every route, from 8, 16, 32 bit and wide text into narrow and wide values", [](mc::Ctx& cx, uint64_t i)
           {
               auto& d = docs[i];
               parse_all<json, char>(cx, d, 511);
               parse_all<wjson, wchar_t>(cx, d, 511);
               parse_all<json, char16_t>(cx, d, 0x11b);
               parse_all<wjson, char>(cx, d, 0x8b);
               parse_all<json, char32_t>(cx, d, 0x9);
           }, 300, 1);
    static const unsigned W = th ? 5 : 4;
    ck.add("words", mc::words_upto(N, W), "every document of up to " + std::to_string(W) + " of 12 tokens, valid or not valid in its last token only", [](mc::Ctx& cx, uint64_t i)
           {
               U    t, p;
               auto w = mc::word(N, i);
               for (auto x : w)
               {
                   p = t;
                   t += tok[x];
               }
               V    v;
               // texts refused before their last token behave like shorter ones
               size_t reached = 0;
               if (ref::parse(t, v, ref::Limits(), &reached) == ref::Bad && reached < p.size())
                   return;
               parse_all<json, char>(cx, t, 0x13);
           }, 120, 64);
    static trees::Space sp;
    sp.leaves = { V(), V::boolean(true), V::integer(-1234567), V::floating(0.5), V::string(L), V::string(U"\u00e9\n\U0001d11e") };
    sp.keys   = { U"", k };
    sp.build(th ? 5 : 4);
    ck.add("dumps", sp.size(), "every tree of weight up to " + std::string(th ? "5" : "4") + " dumped by six routes with three sets of options", [](mc::Ctx& cx, uint64_t i)
           {
               for (unsigned o = 0; o < 3; ++o)
                   dump_all<json, char>(cx, sp[i], o);
               if (i % 4 == 0)
                   dump_all<wjson, wchar_t>(cx, sp[i], i / 4 % 3);
               if (i % 8 == 0)
                   dump_all<json, wchar_t>(cx, sp[i], i / 8 % 3);
           }, 300, 8);
    static std::vector<V> odd = { V::floating(1e300), V::string(U(5000, U'x')), V::array(std::vector<V>(300, V::string(L))), V::floating(std::numeric_limits<double>::quiet_NaN()), V::array({ V::string(L), V::floating(std::numeric_limits<double>::infinity()) }) };
    ck.add("large dumps", odd.size(), "long texts and refused ones", [](mc::Ctx& cx, uint64_t i)
           {
               if (i == 3 || i == 4)
               {
                   for (auto route : { 0, 1 })
                       probe(cx, "dumping a refused value " + std::to_string(i), [&](Run& r)
                             {
                                 json::value v = to<json::value>(odd[i]);
                                 error_handler_with<error_policy::record> rec;
                                 std::ostringstream os;
                                 using S = json::serializer_type<char>;
                                 Err e = r.go([&] { if (route) json::dump(os, v, { S::with_error_handler(&rec) }); else json::dump(os, v); });
                                 bool told = route && !rec.error.empty();
                                 if (!e && told)
                                     e = serialization;
                                 r.judge(e, false, serialization, [] { return ""; });
                             });
                   return;
               }
               for (unsigned o = 0; o < 3; ++o)
               {
                   dump_all<json, char>(cx, odd[i], o);
                   dump_all<wjson, wchar_t>(cx, odd[i], o);
               }
           }, 300, 1);
    static trees::Space ps;
    ps.leaves = { V(), V::integer(3), V::string(L) };
    ps.keys   = { U"b", k };
    ps.build(th ? 4 : 3);
    ck.add("copies", ps.size() * ps.size(), "every pair of trees of weight up to " + std::string(th ? "4" : "3") + " copied, assigned, compared, listed and read", [](mc::Ctx& cx, uint64_t i) { copies(cx, ps[i / ps.size()], ps[i % ps.size()]); }, 120, 64);
    static seq::Explorer ex = build(th);
    ex.enumerate(th ? 3 : 2, th ? 12000 : 100000);
    ck.add("states", ex.nodes.size(), "every model state reachable by " + std::string(th ? "up to 3 operations (at most 12000 states)" : "up to 2 operations") + ", every one of " + std::to_string(ex.ops.size()) + " operations", [](mc::Ctx& cx, uint64_t i) { sequence_node(cx, ex, i); }, 300, 8);
    using S = std::string;
    conv<json::value, std::string>(th);
    conv<json::value, std::vector<S>>(th);
    conv<json::value, std::vector<bool>>(th);
    conv<json::value, std::deque<int>>(th);
    conv<json::value, std::list<S>>(th);
    conv<json::value, std::forward_list<S>>(th);
    conv<json::value, std::set<S>>(th);
    conv<json::value, std::unordered_set<int>>(th);
    conv<json::value, std::map<S, int>>(th);
    conv<json::value, std::map<S, std::vector<int>>>(th);
    conv<json::value, std::unordered_map<S, S>>(th);
    conv<json::value, std::unique_ptr<S>>(th);
    conv<json::value, std::shared_ptr<std::vector<int>>>(th);
    conv<json::value, std::array<S, 2>>(th);
    conv<json::value, std::vector<std::map<S, int>>>(th);
    conv<json::value, std::vector<json::value>>(th);
    conv<json::value, std::map<S, json::value>>(th);
    conv<json::value, std::list<std::unique_ptr<int>>>(th);
    conv<wjson::value, std::vector<std::wstring>>(th);
    ck.add("structs", 32, "a bound struct with every subset of its parts, made, read, wrapped", bound, 120, 1);
    ck.add("tour", tour::NSTOPS, "every stop of a tour through the whole library", [](mc::Ctx& cx, uint64_t i)
           {
               tour::texts     = false;
               const auto& st  = tour::stops()[static_cast<int>(i)];
               const S    want = st.f(1);
               probe(cx, S("the stop '") + st.name + "'", [&](Run& r)
                     {
                         S   got;
                         Err e = r.go([&] { got = st.f(1); });
                         r.judge(e, false, none, [&] { return got == want ? S() : "the result is " + mc::show(got) + " instead of " + mc::show(want); });
                     });
           }, 300, 1);
    return mc::run(ck, argc, argv);
}
