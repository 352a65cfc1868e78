// C22: the library works the same for every supported template configuration.
#ifndef PART
#define PART 0
#endif
#include <cstdint>
#include <cstdlib>
#include <deque>
#include <list>
#include <map>
#include <new>
#include <string>
#include <utility>
#include <vector>
#include <configor/json.hpp>
#include <configor/configor.hpp>

// ---- the replacements --------------------------------------------------------------------------
// an object type that keeps the order of insertion
template <class Key, class T>
class Ordered
{
public:
    using key_type       = Key;
    using mapped_type    = T;
    using value_type     = std::pair<const Key, T>;
    using list           = std::list<value_type>;
    using iterator       = typename list::iterator;
    using const_iterator = typename list::const_iterator;
    using size_type      = std::size_t;

    Ordered() = default;
    Ordered(const Ordered&) = default;
    Ordered(Ordered&& o) noexcept
    {
        l_.swap(o.l_);
    }
    Ordered& operator=(Ordered o) noexcept
    {
        l_.swap(o.l_);
        return *this;
    }
    Ordered(std::initializer_list<value_type> l)
    {
        for (auto& x : l)
            emplace(x.first, x.second);
    }
    iterator       begin() { return l_.begin(); }
    iterator       end() { return l_.end(); }
    const_iterator begin() const { return l_.begin(); }
    const_iterator end() const { return l_.end(); }
    const_iterator cbegin() const { return l_.begin(); }
    const_iterator cend() const { return l_.end(); }
    size_type      size() const { return l_.size(); }
    bool           empty() const { return l_.empty(); }
    void           clear() { l_.clear(); }
    iterator       find(const Key& k)
    {
        auto i = l_.begin();
        while (i != l_.end() && !(i->first == k))
            ++i;
        return i;
    }
    const_iterator find(const Key& k) const { return const_cast<Ordered*>(this)->find(k); }
    size_type      count(const Key& k) const { return find(k) != end(); }
    size_type      erase(const Key& k)
    {
        auto i = find(k);
        if (i == end())
            return 0;
        l_.erase(i);
        return 1;
    }
    iterator erase(const_iterator i) { return l_.erase(i); }
    iterator erase(const_iterator a, const_iterator b) { return l_.erase(a, b); }
    template <class A, class B>
    std::pair<iterator, bool> emplace(A&& a, B&& b)
    {
        Key  k(std::forward<A>(a));
        auto i = find(k);
        if (i != end())
            return { i, false };
        l_.emplace_back(std::move(k), std::forward<B>(b));
        return { --l_.end(), true };
    }
    std::pair<iterator, bool> insert(const value_type& v) { return emplace(v.first, v.second); }
    T&                        operator[](const Key& k) { return emplace(k, T()).first->second; }
    friend bool               operator==(const Ordered& a, const Ordered& b) { return a.l_ == b.l_; }
    friend bool               operator<(const Ordered& a, const Ordered& b) { return a.l_ < b.l_; }

private:
    list l_;
};
struct OrderedArgs : configor::value_tplargs
{
    template <class K, class T, class... A>
    using object_type = Ordered<K, T>;
};
// an allocator of its own heap that checks what comes back
namespace own
{
inline long live = 0, made = 0, seen = 0, fail_at = -1;
inline long constructed = 0;
inline bool bad = false;
}  // namespace own
template <class T>
struct Alloc
{
    using value_type = T;
    Alloc()          = default;
    template <class U>
    Alloc(const Alloc<U>&)
    {
    }
    T* allocate(std::size_t n)
    {
        if (own::seen++ == own::fail_at)
            throw std::bad_alloc();
        auto p = static_cast<std::size_t*>(std::malloc(2 * sizeof(std::size_t) + n * sizeof(T)));
        p[0]   = n * sizeof(T);
        p[1]   = 0x5ca1ab1eu;
        ++own::live, ++own::made;
        return reinterpret_cast<T*>(p + 2);
    }
    void deallocate(T* t, std::size_t n)
    {
        auto p = reinterpret_cast<std::size_t*>(t) - 2;
        if (p[1] != 0x5ca1ab1eu || p[0] != n * sizeof(T))
            own::bad = true;
        p[1] = 0;
        --own::live;
        std::free(p);
    }
    template <class U>
    bool operator==(const Alloc<U>&) const
    {
        return true;
    }
    template <class U>
    bool operator!=(const Alloc<U>&) const
    {
        return false;
    }
};
struct AllocArgs : configor::value_tplargs
{
    template <class T>
    using allocator_type = Alloc<T>;
};
// a deque of values, a string class of one's own, a boolean of one's own
template <class Ch, class... A>
struct MyString : std::basic_string<Ch, A...>
{
    using base = std::basic_string<Ch, A...>;
    using base::base;
    MyString() = default;
    MyString(const base& b)
        : base(b)
    {
    }
    MyString(base&& b)
        : base(std::move(b))
    {
    }
};
struct MyBool
{
    bool b;
    MyBool() = default;
    MyBool(bool x)
        : b(x)
    {
    }
    operator bool() const { return b; }
};
struct MineArgs : configor::value_tplargs
{
    using boolean_type = MyBool;
    template <class T, class... A>
    using array_type = std::deque<T, A...>;
    template <class Ch, class... A>
    using string_type = MyString<Ch, A...>;
};
struct CharBoolArgs : configor::value_tplargs
{
    using boolean_type = unsigned char;
};
template <class I, class F>
struct NumArgs : configor::value_tplargs
{
    using integer_type = I;
    using float_type   = F;
};
template <class T>
using Json = configor::basic_json<T>;

namespace std
{
template <class Ch, class... A>
struct hash<MyString<Ch, A...>> : hash<basic_string<Ch, A...>>
{
};
}  // namespace std
#if PART == 0
#define SEQ_JSON Json<OrderedArgs>
#define SEQ_INSERTION_ORDER
#elif PART == 1
#define SEQ_JSON Json<AllocArgs>
#elif PART == 2
#define SEQ_JSON Json<MineArgs>
#endif
#include "tour.hpp"
#include "seq.hpp"
#include "trees.hpp"
#include "makers.hpp"
using namespace cf;
using ref::U;
using ref::V;
static mc::Check ck;

// the order of members as the value under test keeps it
static V sorted(V v)
{
    for (auto& x : v.a)
        x = sorted(x);
    for (auto& m : v.o)
        m.second = sorted(m.second);
    std::stable_sort(v.o.begin(), v.o.end(), [](const std::pair<U, V>& a, const std::pair<U, V>& b) { return a.first < b.first; });
    return v;
}
template <class J, bool keeps_order>
static void document(mc::Ctx& cx, const U& text, const ref::Limits& lim = ref::Limits(), ref::Cmp cmp = ref::literal_cmp())
{
    using Val   = typename J::value;
    cmp.ordered = true;
    V    want;
    auto st = ref::parse(text, want, lim);
    if (!keeps_order)
        want = sorted(want);
    auto t = ref::enc<char>(text);
    for (int route = 0; route < 3; ++route)
    {
        Val v = to<Val>(V::array({ V::string(U"old") }));
        Err e = attempt([&]
                        {
                            if (route == 0)
                                v = J::parse(t.c_str());
                            else if (route == 1)
                            {
                                std::istringstream is(t);
                                J::parse(v, is);
                            }
                            else
                                v = J::parse(ref::enc<char16_t>(text).c_str());
                        });
        if (t.find('\0') != std::string::npos && route != 1)
            continue;
        cx.eval();
        std::string what = "parsing " + mc::shows(t) + " by route " + std::to_string(route);
        if (st == ref::Bad && e != deserialization)
            cx.fail(what + (e ? std::string(" ended with ") + name(e) : " gave " + ref::show(from(v))) + ", it must be refused");
        if (st == ref::Ok && (e || !ref::eq(from(v), want, cmp)))
            cx.fail(what + (e ? std::string(" ended with ") + name(e) : " gave " + ref::show(from(v))) + " instead of " + ref::show(want));
        if (st != ref::Ok || e)
            continue;
        // iteration and dumping keep the members in the same order
        if (v.is_object())
        {
            size_t k = 0;
            for (auto it = v.cbegin(); it != v.cend(); ++it, ++k)
                if (k >= want.o.size() || ref::dec(std::string(it.key().begin(), it.key().end())) != want.o[k].first)
                    cx.fail(what + ": iteration gives member " + std::to_string(k) + " as " + mc::shows(std::string(it.key().begin(), it.key().end())));
        }
        auto d = J::template dump<char>(v);
        V    back;
        auto loose = cmp;
        loose.zero_sign = false;
        loose.rel  = std::max<long double>(cmp.rel, 1e-5L);
        if (ref::parse(ref::dec(std::string(d.begin(), d.end())), back, lim) != ref::Ok || !ref::eq(back, from(v), loose))
            cx.fail(what + " and dumping it gave " + mc::shows(std::string(d.begin(), d.end())));
        if (!ref::eq(from(Val(v)), from(v), ref::Cmp()) || !(v == Val(v)))
            cx.fail(what + " and copying it gave another value");
    }
    cx.outcome(mc::mix(st) ^ (st == ref::Ok ? shape_hash(want) : 0));
}
static const std::vector<std::string> toks = { "[", "]", "{", "}", ",", ":", "\"b\"", "\"a\"", "1", "-2.5", "true", "false", "null", "\"\xc3\xa9\\n\"" };
static const unsigned                 NT   = 14;
template <class J, bool order>
static void documents(const char* who, unsigned len)
{
    ck.add(std::string("documents ") + who, mc::words_upto(NT, len), "every word of up to " + std::to_string(len) + " of 14 tokens", [](mc::Ctx& cx, uint64_t i)
           {
               U t;
               for (auto k : mc::word(NT, i))
                   t += ref::dec(toks[k]);
               document<J, order>(cx, t);
           });
    // every arrangement of members
    static const char* keys[] = { "\"b\"", "\"a\"", "\"c\"", "\"\"" };
    static const char* vals[] = { "1", "{\"z\":1,\"y\":true,\"x\":2}", "[{\"q\":null,\"p\":false}]" };
    static const unsigned M = 4;
    ck.add(std::string("members ") + who, mc::words_upto(12, M), "every object of up to 4 members (repeated keys included) from 4 keys and 3 values", [](mc::Ctx& cx, uint64_t i)
           {
               std::string t = "{";
               bool        first = true;
               for (auto k : mc::word(12, i))
               {
                   t += std::string(first ? "" : ",") + keys[k % 4] + ":" + vals[k / 4];
                   first = false;
               }
               document<J, order>(cx, ref::dec(t + "}"));
           });
    ck.add(std::string("lists ") + who, makers::array_cases<J>() + makers::object_cases<J>(), "arrays of every list of up to 4 of 6 values, objects of every list of up to 3 members of 4 keys, repeated ones included", [](mc::Ctx& cx, uint64_t i)
           {
               if (i < makers::array_cases<J>())
                   makers::array_case<J>(cx, i);
               else
                   makers::object_case<J, order>(cx, i - makers::array_cases<J>());
           });
    ck.add(std::string("sizes ") + who, (100 + mc::big_sizes) * 3, "arrays, strings and objects of every size below 100 and of 12 sizes up to 131073 (objects of 8193)", [](mc::Ctx& cx, uint64_t i)
           {
               uint64_t    n = mc::size_at(i / 3, 100);
               std::string t = i % 3 == 0 ? "[" : i % 3 == 1 ? "[\"" : "{";
               if (i % 3 == 1)
                   t += std::string(n, 'x') + "\"]";
               else
               {
                   if (i % 3 == 2)
                       n = std::min<uint64_t>(n, 8193);
                   for (uint64_t k = 0; k < n; ++k)
                       t += (k ? "," : "") + (i % 3 == 2 ? "\"" + std::to_string(k * 7 % n + (k % 2 ? 100000 : 0)) + "\":" : std::string()) + (k % 3 ? "1" : "\"v\"");
                   t += i % 3 ? "}" : "]";
               }
               document<J, order>(cx, ref::dec(t));
           }, 300, 1);
}
// every tree dumped: exactly this text (the leaves' texts are known)
static std::string compact(const V& v)
{
    switch (v.k)
    {
    case ref::Null: return "null";
    case ref::Bool: return v.b ? "true" : "false";
    case ref::Int: return std::to_string(v.i);
    case ref::Float: return "0.5";
    case ref::Str: return "\"" + ref::utf8(v.s) + "\"";
    case ref::Arr:
    {
        std::string s = "[";
        for (size_t k = 0; k < v.a.size(); ++k)
            s += (k ? "," : "") + compact(v.a[k]);
        return s + "]";
    }
    default:
    {
        std::string s = "{";
        for (size_t k = 0; k < v.o.size(); ++k)
            s += (k ? ",\"" : "\"") + ref::utf8(v.o[k].first) + "\":" + compact(v.o[k].second);
        return s + "}";
    }
    }
}
template <class J, bool order>
static void dumps(const char* who, unsigned weight)
{
    static trees::Space sp;
    sp.leaves = { V(), V::boolean(true), V::boolean(false), V::integer(-7), V::floating(0.5), V::string(U"\u00e9 a string that does not fit the small buffer") };
    sp.keys   = { U"m", U"k", U"" };
    sp.build(weight);
    ck.add(std::string("trees ") + who, sp.size(), "every tree of weight up to " + std::to_string(weight) + ", its keys not in their own order: dump, access and comparison", [](mc::Ctx& cx, uint64_t i)
           {
               using Val  = typename J::value;
               using SJ   = typename J::template serializer_type<char>;
               const V& r = sp[i];
               Val      v = to<Val>(r);
               V        w = order ? r : sorted(r);
               auto     d = J::template dump<char>(v);
               cx.eval();
               if (std::string(d.begin(), d.end()) != compact(w))
                   cx.fail("dumping " + ref::show(r) + " gave " + mc::shows(std::string(d.begin(), d.end())) + " instead of " + compact(w));
               std::ostringstream os;
               os << J::wrap(v);
               if (os.str() != compact(w))
                   cx.fail("inserting " + ref::show(r) + " gave " + mc::shows(os.str()));
               auto p = J::template dump<char>(v, { SJ::with_indent(1, '\t'), SJ::with_unicode_escaping(true), SJ::with_precision(1) });
               V    back;
               ref::Cmp c;
               c.ordered = true;
               if (ref::parse(ref::dec(std::string(p.begin(), p.end())), back) != ref::Ok || !ref::eq(back, w, c))
                   cx.fail("dumping " + ref::show(r) + " with options gave " + mc::shows(std::string(p.begin(), p.end())));
               for (uint64_t j = i % 97; j < sp.size(); j += sp.size() / 60 + 1)
               {
                   Val  x  = to<Val>(sp[j]);
                   bool eq = v == x, want = ref::eq(order ? sp[j] : sorted(sp[j]), w, c);
                   if (eq != want || (v != x) == eq)
                       cx.fail("comparing " + ref::show(r) + " and " + ref::show(sp[j]) + " gave " + (eq ? "equal" : "unequal"));
               }
               // typed access
               using B = typename Val::boolean_type;
               using S = typename Val::string_type;
               auto kinds = [&](bool is, auto f, const char* n)
               {
                   Err e = attempt(f);
                   if (is ? e != none : e != type_error)
                       cx.fail("reading " + ref::show(r) + " as " + n + " ended with " + name(e));
               };
               kinds(r.k == ref::Bool, [&] { if (static_cast<bool>(v.template get<B>()) != r.b) throw 1; }, "a boolean");
               kinds(r.k == ref::Int, [&] { if (v.template get<typename Val::integer_type>() != r.i) throw 1; }, "an integer");
               kinds(r.k == ref::Float, [&] { if (v.template get<typename Val::float_type>() != r.f) throw 1; }, "a float");
               kinds(r.k == ref::Str, [&] { S s = v.template get<S>(); if (ref::dec(std::string(s.begin(), s.end())) != r.s) throw 1; }, "a string");
               kinds(r.k == ref::Arr || r.k == ref::Null, [&] { auto a = v.template get<typename Val::array_type>(); if (a.size() != r.a.size()) throw 1; }, "an array");
               kinds(r.k == ref::Obj || r.k == ref::Null, [&] { auto a = v.template get<typename Val::object_type>(); if (a.size() != r.o.size()) throw 1; }, "an object");
               kinds(r.k == ref::Bool, [&] { if (&v.template get<B&>() != &v.data().boolean) throw 1; }, "a boolean reference");
               kinds(r.k == ref::Str, [&] { if (&v.template get<S&>() != v.data().string) throw 1; }, "a string reference");
               if ((v.template get_ptr<S*>() != nullptr) != (r.k == ref::Str) || (v.template get_ptr<typename Val::array_type*>() != nullptr) != (r.k == ref::Arr) || (v.template get_ptr<typename Val::object_type*>() != nullptr) != (r.k == ref::Obj)
                   || (v.template get_ptr<B*>() != nullptr) != (r.k == ref::Bool))
                   cx.fail("the pointers into " + ref::show(r) + " do not fit its kind");
               cx.outcome(shape_hash(r));
           });
}
#if PART < 3
static void sequences(const char* who, unsigned depth)
{
    using namespace seq;
    static Explorer ex;
    auto&           o = ex.ops;
    auto            A = at(0), B = at(1);
    for (auto& p : { A, at(0, 0), at(0, "k"), at(0, "a") })
        for (auto& l : { V(), V::integer(7), V::string(U"a string that does not fit the small buffer"), V::array(), V::object() })
            o.push_back(opc(AssignConst, p, l));
    for (auto& p : { A, at(0, "k") })
    {
        o.push_back(opc(PushConst, p, V::integer(7)));
        o.push_back(op(Clear, p));
        o.push_back(op(Touch, p));
        o.push_back(opi(EraseIdx, p, 0));
        o.push_back(opk(EraseKey, p, "k"));
        o.push_back(opi(EraseIt, p, 0));
        o.push_back(opi(EraseRange, p, 0, 99));
    }
    o.push_back(opi(EraseIt, A, 1));
    o.push_back(opi(EraseCIt, A, 0));
    o.push_back(opi(EraseRange, A, 1, 2));
    for (int i : { 0, 3 })
    {
        o.push_back(opi(At, A, i));
        o.push_back(opi(CAt, A, i));
    }
    for (auto k : { "k", "z" })
        for (bool c : { false, true })
        {
            o.push_back(opk(AtKey, A, k, c));
            o.push_back(opk(CAtKey, A, k, c));
            o.push_back(opk(Find, A, k));
            o.push_back(opk(Count, A, k));
        }
    o.push_back(op(Copy, A, B));
    o.push_back(op(Copy, B, A));
    o.push_back(op(Move, B, A));
    o.push_back(op(Swap, A, B));
    o.push_back(op(Copy, at(0, 0), B));
    o.push_back(op(Copy, A, at(0, "k")));
    o.push_back(op(Push, A, B));
    o.push_back(op(PushMove, A, B));
    ex.enumerate(depth, 200000);
    ck.add(std::string("states ") + who, ex.nodes.size(), "every state reachable by " + std::to_string(depth) + " of " + std::to_string(o.size()) + " operations on two variables, every operation from it", [](mc::Ctx& cx, uint64_t i)
           {
#if PART == 1
               long live = own::live;
#endif
               ex.from_node(cx, i);
#if PART == 1
               if (own::live != live || own::bad)
                   cx.fail("the allocator lost memory or got back what it did not give");
#endif
           });
}
#endif
#if PART == 1
// memory of values: only from the configured allocator
static void allocation(mc::Ctx& cx, const V& r, const V& q)
{
    using J   = Json<AllocArgs>;
    using Val = J::value;
    long live = own::live;
    auto text = compact(sorted(r));
    // warm up what the streams keep for good
    (void)J::parse(text.c_str());
    auto audit = [&](const char* what, auto f)
    {
        cx.eval();
        long h = heap::live, o = own::live;
        {
            Val v, w = to<Val>(q);
            o = own::live;
            h = heap::live;
            f(v, w);
            if (heap::live != h)
                cx.fail(std::string(what) + " " + ref::show(r) + ": " + std::to_string(heap::live - h) + " blocks of the value are not from its allocator");
            std::function<long(const Val&)> need = [&](const Val& x) -> long
            {
                long n = x.is_string() || x.is_array() || x.is_object();
                if (x.is_string() && x.data().string->capacity() > 15)
                    ++n;
                if (x.is_array())
                {
                    n += x.data().vector->capacity() > 0;
                    for (auto& y : *x.data().vector)
                        n += need(y);
                }
                if (x.is_object())
                    for (auto& m : *x.data().object)
                        n += 1 + (m.first.capacity() > 15) + need(m.second);
                return n;
            };
            h       = 0;
            long nn = need(v) + need(w);
            if (own::live - live != nn)
                cx.fail(std::string(what) + " " + ref::show(r) + ": " + std::to_string(own::live - live) + " blocks are out, the values account for " + std::to_string(nn));
        }
        if (own::live != live || own::bad)
            cx.fail(std::string(what) + " " + ref::show(r) + ": the allocator lost memory or got back what it did not give");
    };
    audit("parsing", [&](Val& v, Val&) { v = J::parse(text.c_str()); });
    audit("parsing over", [&](Val& v, Val& w) { J::parse(w, text.c_str()); v = w; });
    audit("copying", [&](Val& v, Val& w) { v = to<Val>(r); w = v; Val x(w); v.swap(x); });
    audit("moving", [&](Val& v, Val& w) { v = to<Val>(r); w = std::move(v); v = std::move(w); });
    audit("appending", [&](Val& v, Val& w) { v.push_back(w); v.push_back(to<Val>(r)); v.emplace_back("a string that does not fit the small buffer"); w = v[1]; v.erase(0); });
    audit("inserting", [&](Val& v, Val& w) { v["a key that does not fit the small buffer"] = w; v["k"] = to<Val>(r); v["k2"] = 5; v.erase("k2"); w = v["k"]; v.erase(v.begin()); });
    audit("listing", [&](Val& v, Val& w) { v = J::array{ w, to<Val>(r), 1 }; w = J::object{ { "k", to<Val>(r) }, { "j", w } }; });
    audit("failing to parse", [&](Val& v, Val& w) { attempt([&] { v = J::parse((text + "]").c_str()); }); attempt([&] { J::parse(w, ("[" + text).c_str()); }); });
    audit("dumping", [&](Val& v, Val&) { v = to<Val>(r); (void)J::template dump<char>(v); });
    // and every failure of that allocator
    for (int op = 0; op < 5; ++op)
        for (long k = 0;; ++k)
        {
            long before = own::live;
            bool hit    = false;
            {
                Val v = to<Val>(q), w = to<Val>(r);
                own::seen    = 0;
                own::fail_at = k;
                Err e        = attempt([&]
                                {
                                    switch (op)
                                    {
                                    case 0: v = J::parse(text.c_str()); break;
                                    case 1: v = w; break;
                                    case 2: { Val x(w); v.swap(x); } break;
                                    case 3: v = Val(configor::value_constant::array); v.push_back(w); v.push_back(w); v = Val(v[1]); break;
                                    case 4: v = Val(configor::value_constant::object); v["k"] = w; v["a key that does not fit the small buffer"] = w; v = Val(v["k"]); break;
                                    }
                                });
                own::fail_at = -1;
                hit          = own::seen > k;
                cx.eval();
                if (e != none && e != alloc && e != deserialization)
                    cx.fail("operation " + std::to_string(op) + " on " + ref::show(r) + " with allocation " + std::to_string(k) + " failing ended with " + name(e));
                if (e == none && !ref::eq(from(v), sorted(r), ref::Cmp()))
                    cx.fail("operation " + std::to_string(op) + " on " + ref::show(r) + " with allocation " + std::to_string(k) + " failing gave " + ref::show(from(v)));
                (void)from(v);
                if (!ref::eq(from(w), sorted(r), ref::Cmp()))
                    cx.fail("operation " + std::to_string(op) + " with allocation " + std::to_string(k) + " failing changed its operand " + ref::show(r));
            }
            if (own::live != before || own::bad)
                cx.fail("operation " + std::to_string(op) + " on " + ref::show(r) + " with allocation " + std::to_string(k) + " failing lost memory");
            if (!hit)
                break;
        }
    cx.outcome(shape_hash(r) * 3 + shape_hash(q));
}
#endif
#if PART == 3
// ---- other number types ------------------------------------------------------------------------
template <class I, class F>
static ref::Limits limits()
{
    ref::Limits l;
    l.int_min = static_cast<long double>(std::numeric_limits<I>::min());
    l.int_max = static_cast<long double>(std::numeric_limits<I>::max());
    l.flt_max = static_cast<long double>(std::numeric_limits<F>::max());
    l.flt_min = static_cast<long double>(std::numeric_limits<F>::min()) * 1.1L;
    l.tol     = sizeof(F) == 4 ? 1e-4L : 1e-12L;
    return l;
}
template <class I, class F>
static void integer(mc::Ctx& cx, __int128 x, const std::string& lit)
{
    using J   = Json<NumArgs<I, F>>;
    using Val = typename J::value;
    bool fits = x >= static_cast<__int128>(std::numeric_limits<I>::min()) && x <= static_cast<__int128>(std::numeric_limits<I>::max());
    Val  v;
    Err  e = attempt([&] { v = J::parse(lit.c_str()); });
    cx.eval();
    if (fits ? e || !v.is_integer() || v.data().integer != static_cast<I>(x) : e != deserialization)
        cx.fail("parsing " + lit + " ended with " + name(e) + (e ? "" : ", the integer " + std::to_string(v.data().integer)));
    cx.outcome(mc::mix(fits) ^ static_cast<uint64_t>(x));
    if (!fits)
        return;
    std::string canon = x == 0 ? "0" : "";
    for (__int128 y = x < 0 ? -x : x; y; y /= 10)
        canon.insert(canon.begin(), static_cast<char>('0' + static_cast<int>(y % 10)));
    if (x < 0)
        canon.insert(0, "-");
    if (J::dump(v) != canon)
        cx.fail("dumping " + canon + " gave " + J::dump(v));
    std::ostringstream os;
    os << std::hex << std::showpos << J::wrap(v);
    if (os.str() != canon)
        cx.fail("inserting " + canon + " gave " + os.str());
    if (v.template get<I>() != static_cast<I>(x) || v.template get<long long>() != static_cast<long long>(x) || !(v == Val(static_cast<I>(x))) || Val(static_cast<I>(x)).type() != v.type())
        cx.fail("reading " + canon + " gave another number");
    // against its neighbours and against floats
    for (int d = -1; d <= 1; ++d)
    {
        __int128 y = x + d;
        if (y < static_cast<__int128>(std::numeric_limits<I>::min()) || y > static_cast<__int128>(std::numeric_limits<I>::max()))
            continue;
        Val w(static_cast<I>(y));
        if ((v == w) != (d == 0) || (v < w) != (d > 0) || (v > w) != (d < 0) || (v <= w) != (d >= 0) || (v >= w) != (d <= 0))
            cx.fail("comparing " + canon + " with its neighbour");
    }
    for (F f : { static_cast<F>(x), std::nextafter(static_cast<F>(x), std::numeric_limits<F>::infinity()), std::nextafter(static_cast<F>(x), -std::numeric_limits<F>::infinity()), static_cast<F>(0.5) })
    {
        Val  w(f);
        auto fx = static_cast<long double>(f), ix = static_cast<long double>(x);  // both exact in 64 bits of mantissa
        if ((v == w) != (ix == fx) || (v < w) != (ix < fx) || (w < v) != (fx < ix) || (w == v) != (ix == fx))
            cx.fail("comparing the integer " + canon + " with the float " + std::to_string(fx));
    }
}
template <class I, class F>
static void floating(mc::Ctx& cx, F f)
{
    using J   = Json<NumArgs<I, F>>;
    using Val = typename J::value;
    using S   = typename J::template serializer_type<char>;
    Val v(f);
    cx.eval();
    if (!v.is_floating() || v.template get<F>() != f || std::signbit(v.template get<F>()) != std::signbit(f))
        cx.fail("a value made of " + std::to_string(static_cast<long double>(f)) + " holds another number");
    for (int p : { 6, 9, 17, 3 })
    {
        std::ostringstream os;
        os.precision(p);
        os << J::wrap(v);
        auto t = os.str();
        std::ostringstream w;
        w.precision(p);
        w << f;
        // exactly, or what the precision says
        long double got  = std::strtold(t.c_str(), nullptr), want = std::strtold(w.str().c_str(), nullptr);
        if (got != want && got != static_cast<long double>(f))
            cx.fail("dumping " + w.str() + " with precision " + std::to_string(p) + " gave " + t);
        if (t.find('.') == std::string::npos && t.find('e') == std::string::npos)
            cx.fail("dumping the float " + w.str() + " gave " + t + ", an integer");
        V    back;
        auto st = ref::parse(ref::dec(t), back, limits<I, F>());
        if (st == ref::Bad)
        {
            if (std::fabs(got) <= static_cast<long double>(std::numeric_limits<F>::max()))
                cx.fail("dumping " + w.str() + " gave " + t + ", no float");
            continue;
        }
        Val x;
        Err e = attempt([&] { x = J::parse(t.c_str()); });
        if (st == ref::Ok && (e || !x.is_floating()))
            cx.fail("parsing " + t + " ended with " + name(e));
        // the digits alone must stay within the type's range for a precise reading
        long double tol = sizeof(F) == 4 ? 2e-5L : 1e-12L;
        if (st == ref::Ok && std::fabs(got) > limits<I, F>().flt_min * 1e6L && std::fabs(static_cast<long double>(x.data().floating) - got) > tol * std::fabs(got))
            cx.fail("parsing " + t + " gave " + std::to_string(static_cast<long double>(x.data().floating)));
    }
    (void)sizeof(S);
    cx.outcome(mc::hash(&f, sizeof f > 10 ? 10 : sizeof f));
}
static std::string text128(__int128 x)
{
    std::string s = x == 0 ? "0" : "";
    for (__int128 y = x < 0 ? -x : x; y; y /= 10)
        s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(y % 10)));
    return x < 0 ? "-" + s : s;
}
template <class I, class F>
static void numbers(const char* who, bool th)
{
    // all integers of a small type and around; else everything near the limits and near powers of two and ten
    if (sizeof(I) <= 2)
    {
        uint64_t n = sizeof(I) == 1 ? 2000 : 140000;
        ck.add(std::string("integers ") + who, n, "every integer of the type and as many beyond it", [n](mc::Ctx& cx, uint64_t i)
               {
                   __int128 x = static_cast<__int128>(i) - static_cast<__int128>(n / 2);
                   integer<I, F>(cx, x, text128(x));
               });
    }
    ck.add(std::string("large integers ") + who, 131 * 41 * 2, "every integer within 20 of a power of two (to the 90th) or of ten (to the 40th), both signs", [](mc::Ctx& cx, uint64_t i)
           {
               uint64_t k = i % 131;
               __int128 x = 1;
               if (k < 91)
                   x <<= k;
               else
                   for (uint64_t j = 91; j < k && j < 91 + 37; ++j)
                       x *= 10;
               x += static_cast<__int128>(i / 131 % 41) - 20;
               if (i / 131 / 41)
                   x = -x;
               integer<I, F>(cx, x, text128(x));
               integer<I, F>(cx, x, x < 0 ? text128(x) : "+" + text128(x));
           });
    // floats of every exponent
    constexpr int   E = std::numeric_limits<F>::max_exponent - std::numeric_limits<F>::min_exponent + 1;
    static unsigned step = E > 2048 && !th ? 37 : 1;
    ck.add(std::string("floats ") + who, static_cast<uint64_t>(E) / step * 16, E > 2048 && !th ? "floats of every 37th exponent, 8 mantissas, both signs" : "floats of every exponent, 8 mantissas, both signs", [](mc::Ctx& cx, uint64_t i)
           {
               static const long double m[] = { 1, 1.5L, 1.25L, 1.1L, 1.2345678901234567L, 1.9999999L, 1.75L, 1.3L };
               int e = std::numeric_limits<F>::min_exponent + static_cast<int>(i / 16 * step);
               F   f = static_cast<F>(std::ldexp(static_cast<F>(m[i / 2 % 8]) / 2, e));
               if (!std::isfinite(f))
                   return;
               floating<I, F>(cx, i % 2 ? -f : f);
           });
    static const std::vector<std::string> lits = { "1.5", "-0.0", "0.1", "1e10", "1E-5", "12345678.9", "-1.25e+2", "1e38", "1e39", "3.5e38", "1e308", "1e309", "1e-40", "1e-400", "1e4931", "1e4933", "123456789012345678901234567890", "123456789012345678901234567890.0", "0.000001e6", "1.0e0",
                                                   "[1.5,2,-3]", "{\"a\":1e5}", "-", "1.", ".5", "1e", "+1.5", "00.5", "01", "1e+" };
    ck.add(std::string("literals ") + who, lits.size(), "float literals around the limits of the types", [](mc::Ctx& cx, uint64_t i)
           {
               ref::Cmp c;
               c.rel = sizeof(F) == 4 ? 1e-4L : 1e-12L;
               c.abs = limits<I, F>().flt_min;
               document<Json<NumArgs<I, F>>, false>(cx, ref::dec(lits[i]), limits<I, F>(), c);
           });
}
#endif
#if PART == 4
// ---- binders -----------------------------------------------------------------------------------
struct Point
{
    int x = 0, y = 0;
};
inline bool operator==(const Point& a, const Point& b) { return a.x == b.x && a.y == b.y; }
inline bool operator!=(const Point& a, const Point& b) { return !(a == b); }
struct Fixed  // no default constructor
{
    explicit Fixed(int v)
        : v(v)
    {
    }
    int v;
};
enum class Color
{
    red,
    green
};
namespace space
{
struct Free  // functions found by argument-dependent lookup
{
    std::string s;
};
template <class Val>
void to_value(Val& c, const Free& f)
{
    c["free"] = f.s;
}
template <class Val>
void from_value(const Val& c, Free& f)
{
    f.s = c.at("free").template get<std::string>();
}
}  // namespace space
namespace configor
{
template <>
class value_binder<Point>  // a specialization of the library's own binder
{
public:
    template <class Val>
    static void to_value(Val& c, const Point& p)
    {
        c = Val(value_constant::array);
        c.push_back(p.x);
        c.push_back(p.y);
    }
    template <class Val>
    static void from_value(const Val& c, Point& p)
    {
        p.x = c.at(size_t(0)).template get<int>();
        p.y = c.at(size_t(1)).template get<int>();
    }
};
template <>
class value_binder<Fixed>
{
public:
    template <class Val>
    static void to_value(Val& c, const Fixed& f)
    {
        c = f.v;
    }
    template <class Val>
    static Fixed from_value(const Val& c)
    {
        return Fixed(c.template get<int>());
    }
};
}  // namespace configor
// a binder of one's own: enums as names, integers checked and counted
static long bound_calls;
template <class T>
struct MyBinder : configor::value_binder<T>
{
};
template <>
struct MyBinder<Color>
{
    template <class Val>
    static void to_value(Val& c, Color k)
    {
        c = k == Color::red ? "red" : "green";
    }
    template <class Val>
    static void from_value(const Val& c, Color& k)
    {
        auto s = c.template get<std::string>();
        if (s != "red" && s != "green")
            throw configor::configor_type_error("no colour");
        k = s == "red" ? Color::red : Color::green;
    }
};
template <>
struct MyBinder<int> : configor::value_binder<int>
{
    template <class Val>
    static void to_value(Val& c, int v)
    {
        ++bound_calls;
        configor::to_value(c, v);
    }
    template <class Val>
    static void from_value(const Val& c, int& v)
    {
        ++bound_calls;
        configor::from_value(c, v);
    }
};
struct BinderArgs : configor::value_tplargs
{
    template <class T>
    using binder_type = MyBinder<T>;
};
template <class Val, class T, class Same>
static void bind(mc::Ctx& cx, const T& x, const V& shape, Same same, const char* what)
{
    cx.eval();
    Val v(x);
    Val w = to<Val>(V::object({ { U"old", V() } }));
    w     = x;
    T    copy = x;
    Val  l(copy), m(std::move(copy));
    for (auto* p : { &v, &w, &l, &m })
        if (!ref::eq(from(*p), shape, ref::Cmp()))
            cx.fail(std::string("making a value from ") + what + " gave " + ref::show(from(*p)) + " instead of " + ref::show(shape));
    T got = v.template get<T>();
    if (!same(got, x))
        cx.fail(std::string("reading ") + what + " back from " + ref::show(shape) + " gave another object");
    T into = x;
    if (!v.get(into) || !same(into, x))
        cx.fail(std::string("reading ") + what + " into a variable from " + ref::show(shape) + " failed");
    Val arr(configor::value_constant::array);
    arr.push_back(x);
    if (!ref::eq(from(arr), V::array({ shape }), ref::Cmp()))
        cx.fail(std::string("appending ") + what);
    for (auto& bad : { V(), V::boolean(true), V::floating(1.5), V::string(U"zz") })
    {
        if (ref::eq(bad, shape, ref::Cmp()))
            continue;
        Val b = to<Val>(bad);
        T   t = x;
        Err e = attempt([&] { (void)b.template get<T>(); });
        if (e == none || e == other || b.get(t))
            cx.fail(std::string("reading ") + ref::show(bad) + " as " + what + " ended with " + name(e));
    }
    cx.outcome(shape_hash(shape));
}
template <class J>
static void binders(const char* who, bool mine)
{
    ck.add(std::string("bound types ") + who, 10000, "every point, fixed number and free struct within bounds, alone and in containers", [mine](mc::Ctx& cx, uint64_t i)
           {
               using Val = typename J::value;
               int   a = static_cast<int>(i % 100) - 50, b = static_cast<int>(i / 100) - 50;
               Point p;
               p.x = a, p.y = b;
               auto shape = V::array({ V::integer(a), V::integer(b) });
               auto eq    = [](auto& x, auto& y) { return x == y; };
               bind<Val>(cx, p, shape, eq, "a point");
               bind<Val>(cx, Fixed(a * b), V::integer(a * b), [](const Fixed& x, const Fixed& y) { return x.v == y.v; }, "a type without default constructor");
               space::Free f{ std::string(static_cast<size_t>(i % 40), 'x') };
               bind<Val>(cx, f, V::object({ { U"free", V::string(U(i % 40, U'x')) } }), [](const space::Free& x, const space::Free& y) { return x.s == y.s; }, "a struct with free functions");
               std::vector<Point> ps(i % 4, p);
               Val                v(ps);
               std::vector<V>     vs(i % 4, shape);
               if (!ref::eq(from(v), V::array(vs), ref::Cmp()) || v.template get<std::vector<Point>>() != ps)
                   cx.fail("a vector of points gave " + ref::show(from(v)));
               std::map<std::string, Point> m{ { "p", p }, { "q", Point() } };
               Val                          w(m);
               if (!ref::eq(from(w), V::object({ { U"p", shape }, { U"q", V::array({ V::integer(0), V::integer(0) }) } }), ref::Cmp()) || w.template get<std::map<std::string, Point>>() != m)
                   cx.fail("a map of points gave " + ref::show(from(w)));
               auto sp = std::make_shared<Point>(p);
               Val  x(sp);
               if (!ref::eq(from(x), shape, ref::Cmp()) || *x.template get<std::shared_ptr<Point>>() != p || *x.template get<std::unique_ptr<Point>>() != p)
                   cx.fail("a pointer to a point gave " + ref::show(from(x)));
               std::ostringstream os;
               os << J::wrap(p);
               if (os.str() != "[" + std::to_string(a) + "," + std::to_string(b) + "]")
                   cx.fail("inserting a point gave " + os.str());
               std::istringstream is(os.str());
               Point              r;
               is >> J::wrap(r);
               if (r != p)
                   cx.fail("extracting a point gave another one");
           });
}
#endif
#if PART == 5
// ---- default encodings -------------------------------------------------------------------------
template <template <class> class Enc>
static void encoding_of(const char* who)
{
    static const std::vector<std::string> texts = { "\"a\xc3\xa9\xe4\xb8\xad\xf0\x9d\x84\x9e\"", "[\"\\u00e9\",\"\\ud834\\udd1e\"]", "{\"\xc3\xa9\":1}", "\"\x80\"", "\"\xc3\"", "[1,2.5,true,null]", "\"\xed\xa0\x80\"", "//\xc3\xa9\n1", "\"\xf0\x9d\x84\"" };
    ck.add(std::string("default encoding ") + who, texts.size() * 3, "9 texts as 8, 16 and 32 bit units with a chosen default encoding", [](mc::Ctx& cx, uint64_t i)
           {
               using J  = configor::basic_json<configor::value_tplargs, Enc>;
               auto& t  = texts[i % texts.size()];
               V    want;
               auto st = ref::parse(ref::dec(t), want);
               typename J::value v;
               Err  e = attempt([&] { v = J::parse(t); });
               cx.eval();
               if (st == ref::Ok ? e || !ref::eq(from(v), want, ref::Cmp()) : e != deserialization)
                   cx.fail("parsing " + mc::shows(t) + " ended with " + name(e));
               if (st == ref::Ok)
               {
                   V back;
                   if (ref::parse(ref::dec(J::dump(v)), back) != ref::Ok || !ref::eq(back, want, ref::Cmp()))
                       cx.fail("dumping it gave " + mc::shows(J::dump(v)));
                   std::istringstream is(t);
                   typename J::value  w;
                   is >> J::wrap(w);
                   std::ostringstream os;
                   os << J::wrap(w);
                   if (!(w == v) || os.str() != J::dump(v))
                       cx.fail("the wrapped forms of " + mc::shows(t) + " differ");
               }
               cx.outcome(i);
           });
}
#endif

// the tour: what the plain configuration does, every other one does
template <class J>
static void tour_of(const char* who, std::vector<std::string> skip = {})
{
    static std::vector<std::string> skipped = std::move(skip);
    ck.add(std::string("tour ") + who, tour::NSTOPS * 3, "every stop of a tour through the whole library, with 3 arguments, against what the plain configuration does", [](mc::Ctx& cx, uint64_t i)
           {
               const auto& want = tour::stops()[static_cast<int>(i / 3)];
               const auto& got  = tour::stops<J>()[static_cast<int>(i / 3)];
               if (std::find(skipped.begin(), skipped.end(), want.name) != skipped.end())
                   return;
               cx.eval();
               auto run = [&](const tour::Stop& s)
               {
                   try
                   {
                       return s.f(static_cast<int>(i % 3));
                   }
                   catch (const std::exception& e)
                   {
                       return std::string("an unexpected exception: ") + e.what();
                   }
               };
               std::string w = run(want), g = run(got);
               if (g != w)
               {
                   size_t k = 0;
                   while (k < g.size() && k < w.size() && g[k] == w[k])
                       ++k;
                   k = k < 30 ? 0 : k - 30;
                   cx.fail(std::string("the stop '") + want.name + "' gives ..." + mc::shows(g.substr(std::min(k, g.size()), 80)) + "... instead of ..." + mc::shows(w.substr(std::min(k, w.size()), 80)) + "...");
               }
               cx.outcome(mc::hash(want.name) + i);
           });
}

int main(int argc, char** argv)
{
    ck.id     = "C22";
    ck.mem_mb = 0;
    bool th   = mc::is_thorough(argc, argv);
    ck.rule   = "the documents, trees, operation sequences and numbers of the other checks, over replaced type parameters, against the same references with the new types' limits";
    ck.assumptions = { "the replaced types behave like the ones they replace (an object type is a map, an array type a random-access sequence, and so on); integer types are the standard signed and unsigned ones" };
#if PART == 0
    ck.part = "ordered";
    tour_of<Json<OrderedArgs>>("insertion-ordered");
    documents<Json<OrderedArgs>, true>("insertion-ordered", th ? 6 : 4);
    dumps<Json<OrderedArgs>, true>("insertion-ordered", th ? 5 : 4);
    sequences("insertion-ordered", th ? 4 : 3);
#elif PART == 1
    ck.part = "allocator";
    tour_of<Json<AllocArgs>>("custom allocator");
    documents<Json<AllocArgs>, false>("custom allocator", th ? 6 : 4);
    dumps<Json<AllocArgs>, false>("custom allocator", th ? 5 : 4);
    sequences("custom allocator", th ? 4 : 3);
    static trees::Space sp;
    sp.leaves = { V(), V::integer(-7), V::floating(0.5), V::string(U"s"), V::string(U"a string that does not fit the small buffer") };
    sp.keys   = { U"a key that does not fit the small buffer", U"k" };
    sp.build(th ? 5 : 4);
    ck.add("allocations", sp.size() * 3, "every tree of weight up to " + std::string(th ? "5" : "4") + ": every block of its values comes from the allocator and returns, and every single failure of the allocator", [](mc::Ctx& cx, uint64_t i) { allocation(cx, sp[i / 3], sp[(i % 3 + 1) * 7 % sp.size()]); });
#elif PART == 2
    ck.part = "types";
    tour_of<Json<MineArgs>>("own deque, string and boolean");
    tour_of<Json<CharBoolArgs>>("char boolean");
    documents<Json<MineArgs>, false>("own deque, string and boolean", th ? 6 : 4);
    dumps<Json<MineArgs>, false>("own deque, string and boolean", th ? 5 : 4);
    sequences("own deque, string and boolean", th ? 4 : 3);
    documents<Json<CharBoolArgs>, false>("char boolean", 4);
    dumps<Json<CharBoolArgs>, false>("char boolean", 4);
#elif PART == 3
    ck.part = "numbers";
    tour_of<Json<NumArgs<long long, long double>>>("long long, long double", { "reading", "bad numbers" });  // whose results depend on the precision and range
    tour_of<Json<NumArgs<long, double>>>("long, double");
    numbers<int8_t, float>("8 bit, float", th);
    numbers<uint8_t, float>("unsigned 8 bit, float", th);
    numbers<int16_t, double>("16 bit, double", th);
    numbers<uint16_t, float>("unsigned 16 bit, float", th);
    numbers<int32_t, float>("32 bit, float", th);
    numbers<uint32_t, double>("unsigned 32 bit, double", th);
    numbers<int64_t, long double>("64 bit, long double", th);
    numbers<uint64_t, long double>("unsigned 64 bit, long double", th);
    numbers<long, float>("long, float", th);
#elif PART == 4
    ck.part = "binders";
    tour_of<Json<BinderArgs>>("an own binder");
    binders<configor::json>("with the library's binder", false);
    binders<Json<BinderArgs>>("with an own binder", true);
    ck.add("own binder", 100, "an own binder decides about its types everywhere", [](mc::Ctx& cx, uint64_t i)
           {
               using Val = Json<BinderArgs>::value;
               Color k = i % 2 ? Color::red : Color::green;
               auto  s = V::string(i % 2 ? U"red" : U"green");
               bind<Val>(cx, k, s, [](Color a, Color b) { return a == b; }, "a colour");
               std::vector<Color> c(i % 5, k);
               Val                v(c);
               if (!ref::eq(from(v), V::array(std::vector<V>(i % 5, s)), ref::Cmp()) || v.get<std::vector<Color>>() != c)
                   cx.fail("a vector of colours gave " + ref::show(from(v)));
               long before = bound_calls;
               std::vector<int> n(i % 7, static_cast<int>(i));
               Val              w(n);
               if (bound_calls - before != static_cast<long>(n.size()) || w.get<std::vector<int>>() != n || bound_calls - before != 2 * static_cast<long>(n.size()))
                   cx.fail("a vector of " + std::to_string(n.size()) + " integers called the binder " + std::to_string(bound_calls - before) + " times");
               cx.eval();
           });
#elif PART == 5
    ck.part = "encodings";
    tour_of<configor::basic_json<configor::value_tplargs, configor::encoding::utf8>>("utf8", { "wide texts", "a shared value" });  // whose wide texts are not UTF-8
    encoding_of<configor::encoding::auto_utf>("auto");
    encoding_of<configor::encoding::utf8>("utf8");
#endif
    return mc::run(ck, argc, argv);
}
