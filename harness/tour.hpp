// A tour through the whole library: short programs which between them execute every part of it, each with a
// result that depends on nothing but its argument.  Used where something must hold of every operation,
// whatever it computes: C20 fails the allocations of each stop, C21 runs the stops in several threads.
#pragma once
#include <algorithm>
#include <array>
#include <configor/json.hpp>
#include <cstdio>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
namespace tour
{
using configor::value_constant;
using configor::wjson;
using S = std::string;
inline bool texts = true;  // results contain the texts of the errors

inline S narrow(const std::wstring& w)
{
    S s;
    for (wchar_t c : w)
        c < 128 ? s += static_cast<char>(c) : s += "<" + std::to_string(static_cast<long>(c)) + ">";
    return s;
}
// an error that must happen; another one leaves the stop
template <class E, class R, class F>
R error(F&& f)
{
    try
    {
        f();
    }
    catch (const E& e)
    {
        return texts ? R("{") + e.what() + "}" : R("{}");
    }
    return "{nothing}";
}
using TypeError = configor::configor_type_error;
using KeyError  = configor::configor_invalid_key;
using IterError = configor::configor_invalid_iterator;
using ReadError = configor::configor_deserialization_error;
using DumpError = configor::configor_serialization_error;
using Range     = std::out_of_range;

struct In : configor::iadapter
{
    S      t;
    size_t p = 0;
    char   read() override { return p < t.size() ? t[p++] : static_cast<char>(EOF); }
    using configor::iadapter::read;
};
struct WIn : configor::wiadapter
{
    std::wstring t;
    size_t       p = 0;
    wchar_t      read() override { return p < t.size() ? t[p++] : static_cast<wchar_t>(WEOF); }
    using configor::wiadapter::read;
};
struct Out : configor::oadapter
{
    S    t;
    void write(const char c) override { t += c; }
    using configor::oadapter::write;
};
struct WOut : configor::woadapter
{
    std::wstring t;
    void         write(const wchar_t c) override { t += c; }
    using configor::woadapter::write;
};
template <class Val>
struct Point
{
    int    x = 0, y = 0;
    bool   operator!=(const Point& o) const { return x != o.x || y != o.y; }
    CONFIGOR_BIND(Val, Point, OPTIONAL(y, "the other"), REQUIRED(x))
};
template <class Val>
struct Record
{
    typename Val::integer_type   id = 0;
    typename Val::string_type    name;
    typename Val::float_type     f = 0;
    typename Val::boolean_type   b = false;
    Point<Val>                   at;
    std::vector<Point<Val>>      path;
    std::unique_ptr<Point<Val>>  own;
    std::map<typename Val::string_type, typename Val::string_type> notes;
    CONFIGOR_BIND(Val, Record, OPTIONAL(at), OPTIONAL(b), OPTIONAL(f), REQUIRED(id), OPTIONAL(notes), OPTIONAL(own), REQUIRED(path), REQUIRED(name, "the name of the record"))
};
struct Wide
{
    int          n = 0;
    std::wstring s;
    friend void  to_value(wjson::value& c, const Wide& w) { c[L"n"] = w.n, c[L"s"] = w.s; }
    friend void  from_value(const wjson::value& c, Wide& w) { c.at(L"n").get(w.n), c.at(L"s").get(w.s); }
};

struct Stop
{
    const char*        name;
    std::string (*f)(int);
};
struct Stops
{
    const Stop* list;
    int         n;
    const Stop& operator[](int i) const { return list[i]; }
};
constexpr int NSTOPS = 23;
// the stops for a configuration of the library; objects get their keys in ascending order, so that an object
// type that keeps the order of insertion shows the same
template <class J = configor::json>
const Stops& stops()
{
    using json = J;
    using Val  = typename J::value;
    using I    = typename Val::integer_type;
    using F    = typename Val::float_type;
    using B    = typename Val::boolean_type;
    using Str  = typename Val::string_type;
    using S    = Str;
    using Arr  = typename Val::array_type;
    using Obj  = typename Val::object_type;
    using P    = typename J::template parser_type<char>;
    using D    = typename J::template serializer_type<char>;
    using Array = typename J::array;
    using Object = typename J::object;
    using Pt   = Point<Val>;
    using Rec  = Record<Val>;
    static const auto mine  = [](const auto& s) { return S(s.begin(), s.end()); };
    using Text = decltype(json::dump(Val()));
    static const auto own   = [](const S& s) { return Text(s.begin(), s.end()); };
    static const auto plain = [](const Str& s) { return std::string(s.begin(), s.end()); };
    static const auto num   = [](long long i) { return mine(std::to_string(i)); };
    static const auto text  = [](const Val& v) { return mine(json::dump(v)); };
    static const auto wide  = [](const std::wstring& w) { return mine(narrow(w)); };
    static const auto wides = [](const auto& w) { return wide(std::wstring(w.begin(), w.end())); };
    static const auto wtext = [](const wjson::value& v) { return wide(wjson::dump(v)); };
    static const B    yes(true), no(false);
    static const Stop list[] = {
    { "kinds", [](int t) -> std::string
      {
          S r;
          for (int k = 0; k < 7; ++k)
          {
              Val v = static_cast<value_constant::type>(k), w;
              w     = static_cast<value_constant::type>(k);
              r += text(v) + num(static_cast<long>(v.size())) + num(v.empty()) + num(v.type()) + num(v.is_number()) + num(v == w);
              v.clear();
              r += num(v == w);
          }
          Val full[] = { Val(7 + t), Val(0.5 + t), Val("some text of " + num(t)), Val(yes), Val(nullptr), Val(Array{ t, "x" }), Val(Object{ { "k", t } }) };
          for (auto& v : full)
          {
              r += num(static_cast<long>(v.size())) + num(v.empty()) + num(v.is_object()) + num(v.is_array()) + num(v.is_string()) + num(v.is_bool()) + num(v.is_integer()) + num(v.is_floating()) + num(v.is_null());
              v.clear();
              r += text(v);
          }
          return plain(r);
      } },
    { "walks", [](int t) -> std::string
      {
          S   r;
          Val a = Array{ t, 3, "two", nullptr, 1.5 }, o = Object{ { "a", t }, { "b", Array{ 1 } }, { "c", "x" } }, s = t, n;
          for (Val* v : { &a, &o, &s, &n })
          {
              const Val& c = *v;
              for (auto it = v->begin(); it != v->end(); it++)
                  r += text(*it) + num(it->type());
              for (auto it = c.cbegin(); it != c.cend(); ++it)
                  r += text(it.value());
              for (auto it = v->end(); it != v->begin();)
                  r += text(*--it);
              for (auto it = c.end(); it != c.begin();)
              {
                  it--;
                  r += num(it->type());
              }
              for (auto it = v->rbegin(); it != v->rend(); ++it)
                  r += text(*it);
              for (auto it = c.crbegin(); it != c.crend(); it++)
                  r += num(it->type());
              for (auto& e : *v)
                  r += text(e);
              r += num(std::distance(c.begin(), c.end()));
          }
          for (auto it = o.begin(); it != o.end(); ++it)
              r += it.key() + text(it.value());
          return plain(r);
      } },
    { "jumps", [](int t) -> std::string
      {
          S    r;
          Val  a = Array{ 5, 3, t, 4, 1 };
          auto b = a.begin(), e = a.end();
          r += num(e - b) + num(b < e) + num(b <= e) + num(b > e) + num(b >= e) + text(*(b + 1)) + text(*(e - 1));
          b += 2;
          b -= 1;
          r += text(*b);
          std::sort(a.begin(), a.end());
          r += text(a) + num(std::lower_bound(a.begin(), a.end(), Val(3)) - a.begin());
          std::reverse(a.begin(), a.end());
          std::rotate(a.begin(), a.begin() + 2, a.end());
          r += text(a) + num(std::count(a.cbegin(), a.cend(), Val(4)));
          Val  s  = t;
          auto sb = s.begin();
          r += num(sb == s.begin()) + num(sb == s.end());
          r += error<IterError, S>([&] { (void)(s.end() - sb); });
          r += num(sb < s.end()) + num(s.end() <= sb) + num(sb + 1 == s.end()) + text(*(s.end() - 1)) + num(s.rbegin() + 1 == s.rend());
          sb += 1;
          r += num(sb == s.end()) + num(a.rend() - a.rbegin()) + num(a.crbegin() < a.crend()) + text(a.rbegin()[size_t(1)]);
          return plain(r);
      } },
    { "bad walks", [](int t) -> std::string
      {
          S                     r;
          Val                   a = Array{ t }, o = Object{ { "a", t } }, s = t, n;
          typename Val::iterator         none(nullptr);
          typename Val::const_iterator   cnone(nullptr);
          for (Val* v : { &a, &o, &s, &n })
          {
              r += error<Range, S>([&] { (void)*v->end(); });
              r += error<Range, S>([&] { (void)v->end()->type(); });
          }
          r += error<IterError, S>([&] { (void)*none; });
          r += error<IterError, S>([&] { (void)*cnone; });
          r += error<IterError, S>([&] { (void)none.key(); });
          r += error<IterError, S>([&] { (void)a.begin().key(); });
          r += error<IterError, S>([&] { ++none; });
          r += error<IterError, S>([&] { --none; });
          r += error<IterError, S>([&] { (void)(a.begin() == o.begin()); });
          r += error<IterError, S>([&] { (void)(o.begin() < o.end()); });
          r += error<IterError, S>([&] { (void)(o.begin() + 1); });
          r += error<IterError, S>([&] { (void)(o.end() - o.begin()); });
          r += error<IterError, S>([&] { (void)(a.end() - o.begin()); });
          r += error<IterError, S>([&] { (void)(a.begin() < s.begin()); });
          r += num(a.begin() != s.begin()) + num(none == none);
          return plain(r);
      } },
    { "erasing", [](int t) -> std::string
      {
          S   r;
          Val a = Array{ t, 1, 2, 3, "four", 5 }, o = Object{ { "a", t }, { "b", 1 }, { "c", 2 }, { "d", 3 } };
          a.erase(1);
          auto it = a.erase(a.begin());
          r += text(*it) + text(a);
          auto ci = a.erase(a.cbegin() + 1, a.cend() - 1);
          r += text(*ci) + text(a);
          r += num(static_cast<long>(o.erase("a"))) + num(static_cast<long>(o.erase("zz")));
          auto oi = o.erase(o.begin());
          r += oi.key();
          o.erase(o.begin(), o.end());
          r += text(o);
          Val s = t;
          r += error<KeyError, S>([&] { s.erase("a"); });
          r += error<KeyError, S>([&] { s.erase(size_t(0)); });
          r += error<Range, S>([&] { a.erase(size_t(9)); });
          r += error<IterError, S>([&] { s.erase(s.begin()); });
          r += error<IterError, S>([&] { s.erase(s.cbegin(), s.cend()); });
          return plain(r + text(a) + text(s));
      } },
    { "looking up", [](int t) -> std::string
      {
          S         r;
          const S   key = "a key which is long enough to need memory";
          Val       o   = Object{ { key, t }, { "b", Array{ 1, 2 } } }, n, n2, n3;
          const Val c = o, s = t, a = Array{ t };
          r += text(o.find(key).value()) + num(o.find("zz") == o.end()) + text(*c.find(key)) + num(c.find("zz") == c.end()) + num(s.find(key) == s.end()) + num(static_cast<long>(c.count(key))) + num(static_cast<long>(s.count(key)));
          Val s2 = t;
          r += num(s2.find(key) == s2.end());
          r += text(c[key]) + text(c["b"]) + text(c.at(key)) + text(c.at("b").at(1)) + text(c["b"][size_t(1)]) + text(o[key]) + text(o["b"][1]);
          n[key]["deep"][2] = t;
          n2["x"]           = t;
          n3[1]             = t;
          r += text(n) + text(n2) + text(n3);
          r += error<Range, S>([&] { (void)c["zz"]; }) + error<Range, S>([&] { (void)c[S("zz")]; }) + error<Range, S>([&] { (void)c.at("zz"); }) + error<Range, S>([&] { (void)a.at(5); }) + error<Range, S>([&] { (void)a[5]; });
          r += error<KeyError, S>([&] { (void)s["zz"]; }) + error<KeyError, S>([&] { (void)s[key]; }) + error<KeyError, S>([&] { (void)s.at(size_t(0)); }) + error<KeyError, S>([&] { (void)s[0]; });
          r += error<KeyError, S>([&] { s2["zz"] = 1; }) + error<KeyError, S>([&] { s2[key] = 1; }) + error<KeyError, S>([&] { s2[size_t(0)] = 1; }) + error<TypeError, S>([&] { s2.push_back(1); }) + error<Range, S>([&] { n3[static_cast<size_t>(-1)] = 1; });
          return plain(r + text(s2) + text(n3));
      } },
    { "comparing", [](int t) -> std::string
      {
          S         r;
          const Val v[] = { Val(), Val(yes), Val(no), Val(t), Val(t + 0.0), Val(t + 0.5), Val(-3), Val("abc"), Val("abd"), Val(Array{ t, "x" }), Val(Array{ t, 2.5, 1 }), Val(Object{ { "a", t } }), Val(Object{ { "a", 0.5 }, { "b", 1 } }), Val(1e300), Val(-1e300) };
          for (auto& a : v)
              for (auto& b : v)
                  r += static_cast<char>('A' + (a == b) + 2 * (a != b) + 4 * (a < b) + 8 * (a > b) + 16 * (a <= b) + 32 * (a >= b));
          const Val i = t;
          r += num(i == t) + num(t == i) + num(i != t) + num(t != i) + num(i < 2.5) + num(2.5 < i) + num(i <= t) + num(t <= i) + num(i > t) + num(t > i) + num(i >= t) + num(t >= i) + num(v[7] == "abc") + num("abc" == v[7]) + num(Val() == nullptr);
          return plain(r);
      } },
    { "typed access", [](int t) -> std::string
      {
          S         r;
          Val       i = t, f = t + 0.5, b = yes, s = "a text that is too long to live in place", a = Array{ t }, o = Object{ { "k", t } }, n;
          const Val cs = s, ca = a, co = o, ci = i, cf = f, cb = b;
          r += num(i.template get<int>()) + num(i.template get<I>()) + num(i.template get<unsigned short>()) + num(static_cast<long>(f.template get<double>() * 2)) + num(static_cast<long>(f.template get<float>() * 2)) + num(b.template get<B>()) + s.template get<S>();
          r += num(ci.template get<const I&>()) + num(cb.template get<const B&>()) + cs.template get<const Str&>() + num(static_cast<long>(cf.template get<const F&>()));
          i.template get<I&>() += 1;
          f.template get<F&>() += 1;
          b.template get<B&>() = no;
          s.template get<Str&>() += "!";
          a.template get<Arr&>().push_back(2);
          o.template get<Obj&>()["z"] = 2;
          r += text(i) + text(f) + text(b) + text(s) + text(a) + text(o);
          r += num(i.template get_ptr<I*>() != nullptr) + num(ci.template get_ptr<const I*>() != nullptr) + num(f.template get<F*>() != nullptr) + num(cf.template get<const F*>() != nullptr) + num(b.template get<B*>() != nullptr) + num(cb.template get<const B*>() != nullptr) + num(cs.template get<const Str*>() != nullptr) + num(s.template get<Str*>() != nullptr) + num(a.template get<Arr*>() != nullptr) + num(ca.template get<const Arr*>() != nullptr) + num(o.template get<Obj*>() != nullptr) + num(co.template get<const Obj*>() != nullptr);
          r += num(i.template get<Str*>() == nullptr) + num(s.template get<F*>() == nullptr) + num(ca.template get<const B*>() == nullptr);
          r += num(static_cast<long>(a.template get<Arr>().size())) + num(static_cast<long>(o.template get<Obj>().size())) + num(static_cast<long>(n.template get<Arr>().size())) + num(static_cast<long>(n.template get<Obj>().size())) + text(o.template get<Val>());
          int ti = 0;
          S   ts;
          r += num(i.get(ti)) + num(ti) + num(s.get(ts)) + ts + num(s.get(ti)) + num(i.get(ts)) + ts;
          S implicit = s;
          r += implicit;
          return plain(r);
      } },
    { "bad access", [](int t) -> std::string
      {
          S         r;
          Val       i = t, s = "text", n, f = 0.5, b = yes, a = Array{ t }, o = Object{ { "k", t } };
          const Val c = i;
          for (Val* v : { &i, &f, &s, &a, &o, &b, &n })
          {
              if (!v->is_integer())
                  r += error<TypeError, S>([&] { (void)v->template get<int>(); }) + error<TypeError, S>([&] { (void)v->template get<I&>(); });
              if (!v->is_floating())
                  r += error<TypeError, S>([&] { (void)v->template get<double>(); });
              if (!v->is_bool())
                  r += error<TypeError, S>([&] { (void)v->template get<B>(); });
              if (!v->is_string())
                  r += error<TypeError, S>([&] { (void)v->template get<S>(); });
              if (!v->is_array() && !v->is_null())
                  r += error<TypeError, S>([&] { (void)v->template get<Arr>(); });
              if (!v->is_object() && !v->is_null())
                  r += error<TypeError, S>([&] { (void)v->template get<Obj>(); });
          }
          r += error<TypeError, S>([&] { (void)c.template get<const Str&>(); });
          return plain(r);
      } },
    { "reading", [](int t) -> std::string
      {
          S r;
          for (const char* d : { "false", " null ", "true//c", "/**/[/* * **/]// end\r", "{\"a\":{},\"b\":[[],[1,],],}", "\"\\\"\\\\\\/\\b\\f\\n\\r\\t\\u0041\\uAbCd\\ud834\\udd1e\\u00e9\"", "\"\xc3\xa9\xe2\x82\xac\xf0\x9d\x84\x9e\"", "[0,-0,+1,-9223372036854775808,9223372036854775807]", "[0.5,-1.25e2,1e+2,2E-2,1.5e10,12.75,100000000000000000000.5,1e300]", "1\n" })
              r += text(json::parse(d)) + " ";
          const Text big = own( "[" + num(t) + ",\"a text that is too long to live in place\",{\"a key that is too long to live in place\":" + num(t) + "}]");
          Val     v   = "old";
          json::parse(v, big);
          r += text(v);
          json::parse(v, big.c_str());
          r += text(v) + text(json::parse(big.c_str())) + text(json::parse(big));
          std::istringstream is(std::string(big.begin(), big.end())), is2(std::string(big.begin(), big.end()));
          r += text(json::parse(is));
          json::parse(v, is2);
          return plain(r + text(v) + text(json::parse(Text("1\0 2", 4))));
      } },
    { "bad texts", [](int t) -> std::string
      {
          S r;
          for (const char* d : { "", "x", "[1", "[1 2]", "{\"a\" 1}", "{\"a\":1", "{1:2}", "]", "1 2", "/", "/*", "tru", "nul", "\"", "\"\x01\"", "\"\\x\"", "\"\\u12g4\"", "\"\\ud834\"", "\"\\ud834\\u0041\"", "\"\\udd1e\"", "\"\xff\"", "\"\xc3\"", "[1 true", "[1 false", "[1 null", "[1 \"", "[1 \"x\"", "[1 2.5", "[1[", "[1{", "[1}", "[,", "[:", "{,", "{true", "{null:", "{2.5:", "{[", "{{", "{\"a\":}", "{\"a\",", "{\"a\":1:", "{\"a\":1]", ",", ":", "}", "[]]" })
              r += error<ReadError, S>([&] { (void)json::parse(d); });
          return plain(r + num(t));
      } },
    { "bad numbers", [](int t) -> std::string
      {
          S r;
          for (const char* d : { "-", "+x", "1.", "1.x", "1e", "1e+", "1e01", "1e0", "0e1", "9223372036854775808", "-9223372036854775809", "1e999", "1.5e99999999999", "-.5", "00", "0x1" })
              r += error<ReadError, S>([&] { (void)json::parse(d); });
          return plain(r + num(t));
      } },
    { "wide texts", [](int t) -> std::string
      {
          S              r;
          std::u16string u = u"[\"\u00e9\U0001d11e\",\"\\ud834\\udd1e\",";
          std::u32string q = U"[\"\u00e9\U0001d11e\",\"\\u00e9\",";
          std::wstring   w = L"[\"\u00e9\U0001d11e\",\"\\n\",";
          u += static_cast<char16_t>('0' + t), u += u"]";
          q += static_cast<char32_t>('0' + t), q += U"]";
          w += static_cast<wchar_t>('0' + t), w += L"]";
          r += text(json::parse(u.c_str())) + text(json::parse(q.c_str())) + text(json::parse(w.c_str())) + wtext(wjson::parse(w)) + wtext(wjson::parse(u)) + wtext(wjson::parse(std::string("[\"\xc3\xa9\",{}]")));
          r += wides(json::template dump<wchar_t>(json::parse(w.c_str()))) + mine(wjson::dump<char>(wjson::parse(w)));
          r += error<ReadError, S>([&] { (void)json::parse(u"\"\xd834x\""); }) + error<ReadError, S>([&] { (void)json::parse(u"\"\xdd1e\""); }) + error<ReadError, S>([&] { (void)json::parse(U"\"\x110000\""); });
          std::wistringstream ws(w);
          wjson::value        v;
          ws >> wjson::wrap(v);
          std::wostringstream os;
          os << wjson::wrap(v);
          return plain(r + wide(os.str()));
      } },
    { "codecs", [](int t) -> std::string
      {
          namespace e = configor::encoding;
          S r;
          for (uint32_t c : { 0x41u + static_cast<uint32_t>(t), 0xe9u, 0x20acu, 0x1d11eu, 0xd834u, 0xdd1eu, 0x110000u })
          {
              std::ostringstream  o;
              std::wostringstream w, w16;
              e::utf8<char>::encode(o, c);
              e::utf32<wchar_t>::encode(w, c);
              e::utf16<wchar_t>::encode(w16, c);
              std::istringstream  i(o.str());
              std::wistringstream wi(w.str()), wi16(w16.str());
              uint32_t            x = 0, y = 0, z = 0;
              bool                bx = e::auto_utf<char>::decode(i, x), by = e::auto_utf<wchar_t>::decode(wi, y), bz = e::utf16<wchar_t>::decode(wi16, z);
              r += num(o.good()) + num(w.good()) + num(w16.good()) + num(bx) + num(by) + num(bz) + (i.good() ? num(x) : "") + (wi.good() ? num(y) : "") + (wi16.good() ? num(z) : "");
          }
          std::ostringstream o;
          e::ignore<char>::encode(o, 0x141);
          std::istringstream i("\xe9");
          uint32_t           x = 0;
          e::ignore<char>::decode(i, x);
          r += mine(o.str()) + num(x & 255);
          for (const char* bad : { "\x80", "\xc0\x80", "\xe0\x80\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xf8\x88\x80\x80\x80", "\xc3", "\xc3(" })
          {
              std::istringstream is(bad);
              r += num(e::utf8<char>::decode(is, x)) + num(is.fail());
          }
          r += text(json::parse("\"\xc3\xa9\"", { P::template with_encoding<e::utf8>(), P::template with_source_encoding<e::auto_utf>(), P::template with_target_encoding<e::ignore>() }) == Val("\xe9") ? Val(1) : Val(2));
          r += mine(json::dump(Val("\xe9"), { D::template with_encoding<e::auto_utf>(), D::template with_source_encoding<e::ignore>(), D::template with_target_encoding<e::ignore>() }));
          return plain(r);
      } },
    { "dumping", [](int t) -> std::string
      {
          S   r;
          Val v = Object{ { "a\"\\\b\f\n\r\t\x01\x1f\x7f", Array{ no, yes, nullptr, t, t + 0.1, -5.0, 1e300, "\xc3\xa9\xe2\x82\xac\xf0\x9d\x84\x9e" } }, { "e", Array{} }, { "n", Array{ Array{ Array{ Array{ t } } } } }, { "o", value_constant::object } };
          r += mine(json::dump(v)) + mine(json::dump(v, { D::with_indent(3) })) + mine(json::dump(v, { D::with_indent(200, '\t'), D::with_unicode_escaping(true) }));
          r += mine(json::dump(v, { D::with_precision(2) })) + mine(json::dump(Val(0.999), { D::with_precision(0) })) + mine(json::dump(v, { D::with_precision(3, std::ios_base::scientific) })) + mine(json::dump(v, { D::with_precision(3, std::ios_base::fixed | std::ios_base::scientific) }));
          Text onto("before ");
          json::dump(onto, v);
          r += mine(onto);
          r += error<DumpError, S>([&] { (void)mine(json::dump(Val(1e300 * 1e300))); }) + error<DumpError, S>([&] { (void)mine(json::dump(Val("\xff"))); }) + error<DumpError, S>([&] { (void)mine(json::dump(Val("\xc3"))); });
          std::ostringstream bad;
          bad.rdbuf()->pubsetbuf(nullptr, 0);
          std::ostream none(nullptr);
          r += error<DumpError, S>([&] { json::dump(none, v); });
          return plain(r);
      } },
    { "streams", [](int t) -> std::string
      {
          S    r;
          In   a, b;
          WIn  w;
          Out  o;
          WOut wo;
          a.t = b.t = "[" + std::to_string(t) + ",\"a text that is too long to live in place\"]";
          w.t       = L"[1,\"\u00e9\"]";
          configor::iadapterstream  as(a), bs(b);
          configor::wiadapterstream ws(w);
          configor::oadapterstream  os(o);
          configor::woadapterstream wos(wo);
          Val                       v = json::parse(as);
          r += text(v);
          char buf[200];
          bs.peek();
          bs.read(buf, 3);
          bs.read(buf + 3, 100);
          r += S(buf, 3) + num(bs.gcount()) + num(bs.eof());
          json::dump(os, v);
          os << json::wrap(v) << t << "text";
          os.put('x');
          wjson::value wv = wjson::parse(ws);
          wjson::dump(wos, wv);
          r += mine(o.t) + wide(wo.t);
          const Str                                        s = "a text that is too long to live in place";
          configor::detail::fast_string_istreambuf<char, Str> sb{ s };
          configor::detail::fast_buffer_istreambuf<char>   bb{ s.c_str() };
          std::istream                                     si(&sb), bi(&bb);
          si.read(buf, 7), bi.read(buf, 9);
          r += static_cast<char>(si.get());
          r += static_cast<char>(bi.get());
          si.read(buf, 100), bi.read(buf, 100);
          r += num(si.gcount()) + num(bi.gcount());
          return plain(r);
      } },
    { "files", [](int t) -> std::string
      {
          S r;
          S d = "[" + num(t) + ",\"a text that is too long to live in place\",2.5]";
          for (int k = 0; k < 3; ++k)
          {
              std::unique_ptr<FILE, int (*)(FILE*)> f(fmemopen(const_cast<char*>(d.data()), d.size(), "r"), std::fclose);
              if (!f)
                  return plain(S("no file"));
              Val v;
              if (k == 0)
                  v = json::parse(f.get());
              else if (k == 1)
                  json::parse(v, f.get());
              else
              {
                  configor::detail::fast_cfile_istreambuf<char> b{ f.get() };
                  std::istream                                  is(&b);
                  char                                          buf[64];
                  is.peek();
                  is.read(buf, 5);
                  v = S(buf, 5);
                  is.read(buf, 60);
                  v = v.template get<S>() + num(is.gcount());
              }
              r += text(v);
          }
          return plain(r);
      } },
    { "handlers", [](int t) -> std::string
      {
          using namespace configor;
          S                                        r;
          error_handler_with<error_policy::strict> st;
          error_handler_with<error_policy::ignore> ig;
          error_handler_with<error_policy::record> re;
          Val v   = t;
          r += error<ReadError, S>([&] { json::parse(v, "[1", { P::with_error_handler(&st) }); });
          r += error<DumpError, S>([&] { (void)mine(json::dump(Val(1e300 * 1e300), { D::with_error_handler(&st) })); });
          if (texts)  // what is kept or ignored of a failure may be another failure
          {
              json::parse(v, "[1,]", { P::with_error_handler(&ig) });
              r += text(v);
              json::parse(v, "[1,2", { P::with_error_handler(&ig) });
              r += mine(json::dump(Val(Array{ 1, "\xff" }), { D::with_error_handler(&ig) }));
              json::parse(v, "{\"a\":tru", { P::with_error_handler(&re) });
              r += mine(re.error);
              r += mine(json::dump(Val(Array{ 1, "\xff" }), { D::with_error_handler(&re) })) + mine(re.error);
          }
          return plain(r);
      } },
    { "containers", [](int t) -> std::string
      {
          S                            r;
          std::vector<S>               vs{ "a text that is too long to live in place", num(t) };
          std::deque<int>              d{ t, 2 };
          std::list<double>            l{ t + 0.5 };
          std::forward_list<S>         fl{ "x", num(t), "z" };
          std::set<int>                st{ 3, t };
          std::unordered_set<S>        us{ "only" };
          std::map<S, std::vector<int>> m{ { "k", { t } }, { "l", {} } };
          std::unordered_map<S, S>     um{ { "k", num(t) } };
          std::array<int, 3>           ar{ { 1, t, 3 } };
          int                          ca[2] = { t, 4 };
          Val                          v[]   = { vs, d, l, fl, st, us, m, um, ar, ca };
          for (auto& x : v)
              r += text(x);
          r += num(v[0].template get<std::vector<S>>() == vs) + num(v[1].template get<std::deque<int>>() == d) + num(v[2].template get<std::list<double>>() == l) + num(v[3].template get<std::forward_list<S>>() == fl) + num(v[4].template get<std::set<int>>() == st) + num(v[5].template get<std::unordered_set<S>>() == us) + num(v[6].template get<std::map<S, std::vector<int>>>() == m) + num(v[7].template get<std::unordered_map<S, S>>() == um) + num(v[8].template get<std::array<int, 3>>() == ar);
          int back[2] = {};
          r += num(v[9].get(back)) + num(back[0]) + num(back[1]);
          std::vector<S> into{ "old" };
          r += num(v[0].get(into)) + num(into == vs) + num(v[1].get(into)) + error<TypeError, S>([&] { (void)v[0].template get<std::vector<int>>(); });
          Arr  at{ t, "x" };
          Obj ot{ { "k", t } };
          r += text(Val(at)) + text(Val(ot));
          return plain(r);
      } },
    { "pointers", [](int t) -> std::string
      {
          S                                    r;
          std::unique_ptr<S>                   u(new S("a text that is too long to live in place")), un;
          std::shared_ptr<std::vector<int>>    s = std::make_shared<std::vector<int>>(2, t), sn;
          std::vector<std::shared_ptr<int>>    l{ std::make_shared<int>(t), nullptr };
          Val                                  a = u, b = un, c = s, d = sn, e = l;
          r += text(a) + text(b) + text(c) + text(d) + text(e);
          auto u2 = a.template get<std::unique_ptr<S>>();
          auto s2 = c.template get<std::shared_ptr<std::vector<int>>>();
          auto l2 = e.template get<std::vector<std::shared_ptr<int>>>();
          r += *u2 + num(static_cast<long>(s2->size())) + num(*l2[0]) + num(l2[1] == nullptr) + num(b.template get<std::unique_ptr<S>>() == nullptr) + num(d.template get<std::shared_ptr<std::vector<int>>>() == nullptr);
          r += num(b.get(u2)) + num(u2 == nullptr) + num(d.get(s2)) + num(s2 == nullptr);
          return plain(r);
      } },
    { "structs", [](int t) -> std::string
      {
          S      r;
          Rec x;
          x.id = t, x.name = "a name that is too long to live in place", x.f = 0.5, x.b = yes, x.at.x = 1, x.path = { Pt(), Pt() };
          x.own.reset(new Pt);
          x.own->y   = t + 1;
          x.notes    = { { "k", "v" } };
          Val    v   = x;
          Rec y   = v.template get<Rec>();
          r += text(v) + text(Val(y)) + text(Val(Rec()));
          std::ostringstream os;
          os << json::wrap(x);
          std::istringstream is(os.str());
          Rec             z;
          is >> json::wrap(z);
          r += mine(os.str()) + text(Val(z));
          r += error<TypeError, S>([&] { (void)Val(Object{ { "id", "x" } }).template get<Rec>(); }) + error<Range, S>([&] { (void)Val(Object{ { "id", t } }).template get<Rec>(); }) + error<KeyError, S>([&] { (void)Val(t).template get<Rec>(); });
          Wide         w;
          w.n = t, w.s = L"\u00e9";
          wjson::value wv = w;
          r += wtext(wv) + wide(wv.get<Wide>().s);
          return plain(r);
      } },
    { "building", [](int t) -> std::string
      {
          S   r;
          Val n, a = Array{ t, "a text that is too long to live in place", Object{ { "k", Array{} } } };
          n.push_back(t);
          n.push_back(a);
          n.emplace_back("a text that is too long to live in place");
          n.emplace_back();
          n.push_back(std::move(a));
          r += text(n) + text(a);
          Val o = configor::make_object<Val>({ { "a key that is too long to live in place", n }, { "x", t } }), l = configor::make_array<Val>({ t, n });
          r += text(o) + text(l);
          Val c = o, m = std::move(o);
          o     = l;
          l     = std::move(c);
          o.swap(l);
          o = o["a key that is too long to live in place"];
          o = o[1];
          Val& self = o;
          o         = self;
          o         = std::move(self);
          r += text(o) + text(l) + text(c) + text(m);
          o = nullptr;
          o = yes;
          o = 2.5;
          o = "t";
          o = value_constant::array;
          return plain(r + text(o));
      } },
    { "a shared value", [](int t) -> std::string  // one value that every thread reads, in every way there is
      {
          static const Val v = Object{ { "a", Array{ 3, 1, 2, Array{ "x", 2.5 } } }, { "b", yes }, { "e", Array{} }, { "f", 0.5 }, { "i", -7 }, { "m", Object{ { "k", "v" }, { "l", "w" } } }, { "n", nullptr }, { "p", Object{ { "the other", 5 }, { "x", 4 } } }, { "s", "a text that is too long to live in place \xc3\xa9\n" }, { "v", Array{ 1, 2, 3 } } };
          S r = text(v) + mine(json::dump(v, { D::with_indent(2), D::with_unicode_escaping(true) })) + wides(json::template dump<wchar_t>(v));
          std::ostringstream os;
          os << json::wrap(v);
          r += mine(os.str()) + num(static_cast<long>(v.size())) + num(v.empty()) + num(v.type());
          for (auto it = v.begin(); it != v.end(); ++it)
          {
              const Val& c = *it;
              r += it.key() + num(c.type()) + num(static_cast<long>(c.size())) + num(c.empty()) + num(c.is_number()) + num(c == v) + num(c < v["i"]) + num(v["f"] < c) + num(c == -7) + num(c != v["n"]) + num(static_cast<long>(c.count("k"))) + num(c.find("l") == c.end());
              for (auto& e : c)
                  r += text(e);
              for (auto jt = c.rbegin(); jt != c.rend(); ++jt)
                  r += text(*jt);
              Val copy = c, other;
              other    = c;
              r += num(copy == other);
              int    i = 0;
              S      s;
              F      d = 0;
              B      b = no;
              r += num(c.get(i)) + num(c.get(s)) + num(c.get(d)) + num(c.get(b));
              r += num(c.template get<const I*>() != nullptr) + num(c.template get<const F*>() != nullptr) + num(c.template get<const B*>() != nullptr) + num(c.template get<const Str*>() != nullptr) + num(c.template get<const Arr*>() != nullptr) + num(c.template get<const Obj*>() != nullptr);
          }
          r += num(v["v"].template get<std::vector<int>>()[1]) + num(v["v"].template get<std::array<int, 3>>()[2]) + num(*v["v"].template get<std::set<int>>().begin()) + num(v["v"].template get<std::forward_list<int>>().front()) + v["m"].template get<std::map<S, S>>()["k"] + v["m"].template get<std::unordered_map<S, S>>()["l"];
          r += num(v["p"].template get<Pt>().y) + num(*v["i"].template get<std::unique_ptr<int>>()) + num(v["n"].template get<std::shared_ptr<int>>() == nullptr) + num(static_cast<long>(v["a"].template get<Arr>().size()));
          r += v.at("s").template get<const Str&>() + num(v["i"].template get<const I&>()) + num(v["v"].at(2).template get<int>()) + num(v["v"][size_t(1)].template get<int>()) + num(v["v"].end() - v["v"].begin());
          r += error<Range, S>([&] { (void)v["zz"]; }) + error<TypeError, S>([&] { (void)v.template get<int>(); }) + error<TypeError, S>([&] { (void)v["i"].template get<const Str&>(); }) + error<Range, S>([&] { (void)*v.end(); });
          return plain(r + num(std::count(v["v"].begin(), v["v"].end(), Val(t))) + num(v["i"] < t));
      } },
};
    static_assert(sizeof list / sizeof *list == NSTOPS, "the number of stops");
    static const Stops all{ list, sizeof list / sizeof *list };
    return all;
}
}  // namespace tour
