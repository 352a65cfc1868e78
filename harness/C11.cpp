// C11: copies are independent and moves transfer everything.
#include "seq.hpp"
#include "trees.hpp"
#include <deque>
#include <list>
#include <map>
#include <optional>
#include <sstream>
using namespace seq;

// every single change that can be made inside a value: paths to nodes, and edits of the node
static void nodes_of(json::value& v, std::vector<json::value*>& out)
{
    out.push_back(&v);
    if (v.is_array())
        for (auto& x : *v.data().vector)
            nodes_of(x, out);
    if (v.is_object())
        for (auto& m : *v.data().object)
            nodes_of(m.second, out);
}
static const char* edit(json::value& v, unsigned k)  // nullptr: no such edit
{
    switch (k)
    {
    case 0:
        v.clear();
        return "cleared";
    case 1:
        v = 99;
        return "assigned 99";
    case 2:
        v = json::value(configor::value_constant::array);
        return "assigned []";
    case 3:
        if (!v.is_array())
            return nullptr;
        v.push_back("new");
        return "appended to";
    case 4:
        if (!v.is_array() || v.empty())
            return nullptr;
        v.erase(size_t(0));
        return "first erased";
    case 5:
        if (!v.is_object())
            return nullptr;
        v["new"] = 1;
        return "member added";
    case 6:
        if (!v.is_object() || v.empty())
            return nullptr;
        v.erase(v.begin());
        return "first member erased";
    case 7:
        if (!v.is_string())
            return nullptr;
        v.get<std::string&>() += "changed";
        return "string changed in place";
    case 8:
        if (v.is_integer())
            ++v.get<int64_t&>();
        else if (v.is_floating())
            v.get<double&>() = 7.25;
        else if (v.is_bool())
            v.get<bool&>() ^= true;
        else
            return nullptr;
        return "scalar changed in place";
    }
    return nullptr;
}
static constexpr unsigned edits = 9;

static void disjoint(mc::Ctx& cx, const json::value& a, const json::value& b, const char* how)
{
    std::set<const void*>      seen;
    std::vector<json::value*> na, nb;
    nodes_of(const_cast<json::value&>(a), na);
    nodes_of(const_cast<json::value&>(b), nb);
    for (auto* x : na)
        if (content(*x))
            seen.insert(content(*x));
    for (auto* x : nb)
        if (content(*x) && seen.count(content(*x)))
            cx.fail(std::string(how) + " shares storage with its source");
}

// copy r in every way; check equality and independence under every edit of either side
static void copies(mc::Ctx& cx, const ref::V& r)
{
    auto               src = to<json::value>(r);
    static const char* how[] = { "copy construction", "copy assignment", "copy assignment over content", "get<value>()", "get(value&)", "push_back of a copy", "member assignment", "value through json::array",
                                 "value through json::object", "element of vector<value>", "copy through a const reference" };
    for (unsigned h = 0; h < 11; ++h)
    {
        auto make = [&](const json::value& s) -> json::value
        {
            switch (h)
            {
            case 0:
                return json::value(s);
            case 1:
            {
                json::value x;
                x = s;
                return x;
            }
            case 2:
            {
                json::value x = json::array{ 1, "two", json::object{ { "k", 3 } } };
                x = s;
                return x;
            }
            case 3:
                return s.get<json::value>();
            case 4:
            {
                json::value x = "old";
                if (!s.get(x))
                    cx.fail("get(value&) refused");
                return x;
            }
            case 5:
            {
                json::value x;
                x.push_back(s);
                return std::move(x[size_t(0)]);
            }
            case 6:
            {
                json::value x;
                x["k"] = s;
                return std::move(x["k"]);
            }
            case 7:
            {
                json::value x = json::array{ s, s };
                return std::move(x[size_t(1)]);
            }
            case 8:
            {
                json::value x = json::object{ { "a", s }, { "b", s } };
                return std::move(x["b"]);
            }
            case 9:
            {
                std::vector<json::value> w{ s, s };
                json::value              x(w);
                return std::move(x[size_t(1)]);
            }
            default:
            {
                const json::value& c = s;
                json::value        x{ c };
                return x;
            }
            }
        };
        {
            auto c = make(src);
            cx.eval();
            if (!(c == src) || !ref::eq(from(c), r, ref::Cmp()) || !ref::eq(from(src), r, ref::Cmp()))
                cx.fail(std::string(how[h]) + " of " + ref::show(r) + " gave " + ref::show(from(c)) + " and left " + ref::show(from(src)));
            disjoint(cx, src, c, how[h]);
        }
        // every edit of every node on either side leaves the other as it was
        std::vector<json::value*> n0;
        nodes_of(src, n0);
        for (size_t n = 0; n < n0.size(); ++n)
            for (unsigned k = 0; k < edits; ++k)
                for (int side = 0; side < 2; ++side)
                {
                    auto                      s = to<json::value>(r);
                    auto                      c = make(s);
                    std::vector<json::value*> nn;
                    nodes_of(side ? c : s, nn);
                    auto what = edit(*nn[n], k);
                    if (!what)
                        break;
                    cx.eval();
                    cx.transition();
                    if (!ref::eq(from(side ? s : c), r, ref::Cmp()))
                        cx.fail(std::string(how[h]) + " of " + ref::show(r) + ": node " + std::to_string(n) + " of the " + (side ? "copy" : "source") + " was " + what + ", and the other is now " + ref::show(from(side ? s : c)));
                    if (h > 2)
                        break;
                }
        // destroying the source leaves the copy
        {
            std::optional<json::value> s(to<json::value>(r));
            auto                       c = make(*s);
            s.reset();
            if (!ref::eq(from(c), r, ref::Cmp()))
                cx.fail(std::string(how[h]) + " changed when the source was destroyed");
        }
    }
    cx.outcome(shape_hash(r));
    cx.trace();
}
// moves of r in every way: content handed over, source null, nothing allocated
static void moves(mc::Ctx& cx, const ref::V& r)
{
    static const char* how[] = { "move construction", "move assignment", "move assignment over content", "swap", "swap with itself", "move to itself and back", "std::move through a vector" };
    for (unsigned h = 0; h < 7; ++h)
    {
        auto                      s = to<json::value>(r);
        std::vector<json::value*> before, after;
        nodes_of(s, before);
        std::vector<const void*> cs, cd;
        for (auto* x : before)
            cs.push_back(content(*x));
        json::value d = h == 2 ? json::value(json::array{ 1, "two" }) : json::value();
        std::vector<json::value> w;
        w.reserve(2);
        long made = heap::made;
        switch (h)
        {
        case 0:
        {
            json::value x(std::move(s));
            d.swap(x);
            break;
        }
        case 1:
        case 2:
            d = std::move(s);
            break;
        case 3:
            d.swap(s);
            break;
        case 4:
            s.swap(s);
            d = std::move(s);
            break;
        case 5:
        {
            json::value& same = s;
            s = std::move(same);
            d = std::move(s);
            break;
        }
        case 6:
            w.push_back(std::move(s));
            w.push_back(std::move(w[0]));
            d = std::move(w[1]);
            break;
        }
        if (heap::made != made)
            cx.fail(std::string(how[h]) + " of " + ref::show(r) + " allocated memory: the content was copied");
        cx.eval();
        nodes_of(d, after);
        for (auto* x : after)
            cd.push_back(content(*x));
        if (cs != cd)
            cx.fail(std::string(how[h]) + " of " + ref::show(r) + " did not hand over the content itself");
        if (!ref::eq(from(d), r, ref::Cmp()))
            cx.fail(std::string(how[h]) + " of " + ref::show(r) + " gave " + ref::show(from(d)));
        if (!s.is_null() || s.size() || !s.empty() || s.begin() != s.end())
            cx.fail("the source of " + std::string(how[h]) + " is not null");
        s["usable"].push_back(1);
        if (json::dump(s) != "{\"usable\":[1]}")
            cx.fail("a moved-from value is not usable");
        if (!ref::eq(from(d), r, ref::Cmp()))
            cx.fail("a moved-from value is still tied to the target");
    }
    cx.outcome(shape_hash(r) + 1);
    cx.trace();
}
// conversions and parsing give independent data
static void conversions(mc::Ctx& cx, const ref::V& r)
{
    auto s    = to<json::value>(r);
    auto same = [&](const char* w)
    {
        cx.eval();
        if (!ref::eq(from(s), r, ref::Cmp()))
            cx.fail(std::string(w) + " changed the value it was made from: " + ref::show(r) + " is now " + ref::show(from(s)));
    };
    if (s.is_array())
    {
        auto w = s.get<std::vector<json::value>>();
        for (auto& x : w)
        {
            x = "changed";
        }
        w.clear();
        same("changing a vector taken from an array");
        json::value::array_type const& ca = s.get<const json::value::array_type&>();
        json::value                    b(ca);
        b.push_back(1);
        same("changing a value made from the array");
        std::vector<json::value> l = s;
        for (auto& x : l)
            for (unsigned k = 0; k < edits; ++k)
                edit(x, k);
        same("changing a vector converted implicitly");
    }
    if (s.is_object())
    {
        auto m = s.get<std::map<std::string, json::value>>();
        for (auto& x : m)
            x.second = json::array{ 1 };
        m.clear();
        same("changing a map taken from an object");
        auto o = s.get<json::value::object_type>();
        for (auto& x : o)
            for (unsigned k = 0; k < edits; ++k)
                edit(x.second, k);
        same("changing an object taken from a value");
    }
    if (s.is_string())
    {
        auto t = s.get<std::string>();
        t += "x";
        same("changing a string taken from a value");
        std::string u = t;
        json::value v(u);
        u[0] = 'Z';
        if (v != json::value(t))
            cx.fail("changing a string changed the value made from it");
        json::value v2(std::move(u));
        if (v2.get<std::string>()[0] != 'Z')
            cx.fail("a value made from a moved string has lost it");
    }
    // containers to values
    std::vector<json::value> w{ s, s };
    json::value              v(w);
    w[0] = "gone";
    w.clear();
    if (!ref::eq(from(v), ref::V::array({ r, r }), ref::Cmp()))
        cx.fail("changing a vector changed the value made from it");
    disjoint(cx, v[size_t(0)], v[size_t(1)], "an element of a value made from a vector");
    std::map<std::string, json::value> mm{ { "a", s } };
    json::value                        mv(std::move(mm));
    mm.clear();
    if (!ref::eq(from(mv), ref::V::object({ { U"a", r } }), ref::Cmp()))
        cx.fail("a value made from a moved map has lost its content");
    // initializer lists from temporaries, kept and used later, converted twice
    auto                     ja = json::array{ s, json::value("t"), json::array{ s } };
    json::value              x1 = ja, x2 = ja;
    auto                     jo = json::object{ { "k", s }, { "l", json::array{ 1, s } } };
    json::value              y1 = jo, y2 = jo;
    cx.eval();
    disjoint(cx, x1, x2, "a value from json::array");
    disjoint(cx, y1, y2, "a value from json::object");
    if (!(x1 == x2) || !ref::eq(from(x1), ref::V::array({ r, ref::V::string(U"t"), ref::V::array({ r }) }), ref::Cmp()))
        cx.fail("json::array used twice gave " + ref::show(from(x1)) + " and " + ref::show(from(x2)));
    if (!(y1 == y2) || !ref::eq(from(y1), ref::V::object({ { U"k", r }, { U"l", ref::V::array({ ref::V::integer(1), r }) } }), ref::Cmp()))
        cx.fail("json::object used twice gave " + ref::show(from(y1)) + " and " + ref::show(from(y2)));
    // parsing into a value that has content, from its own text and into a part of a value
    auto text = json::dump(json::value(json::array{ s }));
    json::value p = json::array{ s, s };
    json::parse(p, text);
    if (!ref::eq(from(p), ref::V::array({ r }), ref::Cmp()))
        cx.fail("parsing into a value with content gave " + ref::show(from(p)));
    json::value q = json::array{ s, s, text };
    json::parse(q[size_t(0)], text);
    json::parse(q[size_t(2)], q[size_t(2)].get<std::string>());
    if (!ref::eq(from(q), ref::V::array({ ref::V::array({ r }), r, ref::V::array({ r }) }), ref::Cmp()))
        cx.fail("parsing into an element gave " + ref::show(from(q)));
    // the text itself is a part of the value parsed into, or that value
    for (int c = 0; c < 2; ++c)
        for (int where = 0; where < 4; ++where)
        {
            json::value  u   = json::array{ s, json::array{ text, s }, json::object{ { "a", text } }, text };
            json::value* own = where == 0 ? &u[1][0] : where == 1 ? &u[2]["a"] : &u[3];
            if (where == 3)
            {
                u   = text;
                own = &u;
            }
            json::value& into = where == 0 ? u[1] : where == 1 ? u[2]["a"] : u;
            auto&        t    = own->get<const std::string&>();
            cx.eval();
            auto e = attempt([&] { c ? json::parse(into, t.c_str()) : json::parse(into, t); });
            auto a = ref::V::array({ r }), tx = ref::V::string(ref::dec(text));
            auto want = where == 0 ? ref::V::array({ r, a, ref::V::object({ { U"a", tx } }), tx }) : where == 1 ? ref::V::array({ r, ref::V::array({ tx, r }), ref::V::object({ { U"a", a } }), tx }) : a;
            if (e || !ref::eq(from(u), want, ref::Cmp()))
                cx.fail("parsing the text " + text + " held by the value itself or a part of it gave " + (e ? name(e) : ref::show(from(u))) + " instead of " + ref::show(want));
        }
    auto q1 = json::parse(text), q2 = json::parse(text);
    disjoint(cx, q1, q2, "a parsed value");
    same("converting and parsing");
    cx.outcome(shape_hash(r) + 2);
    cx.trace();
}
static void leakless(mc::Ctx& cx, const ref::V& r, void (*f)(mc::Ctx&, const ref::V&))
{
    long leak = 0;
    for (int k = 0; k < 2; ++k)
    {
        long live = heap::live;
        f(cx, r);
        leak = heap::live - live;
        if (!leak || cx.verbose)
            return;
    }
    cx.fail(std::to_string(leak) + " blocks of memory are lost on " + ref::show(r));
}

int main(int argc, char** argv)
{
    mc::Check ck;
    ck.id     = "C11";
    ck.part   = "main";
    ck.mem_mb = 0;
    bool th   = mc::is_thorough(argc, argv);
    ck.rule   = "breadth-first enumeration of the model's states over three variables; every copy, move, swap and mutation from every state on the real values under AddressSanitizer; every value tree "
                "copied in 11 ways with every edit of either side; a state is a distinct content of the variables";
    ck.assumptions = { "the model has value semantics; it is bound to the code by replaying every explored transition", "a value moved into a part of itself is outside the property" };

    static Explorer ex;
    {
        auto& o = ex.ops;
        std::vector<Place> ps{ at(0), at(1), at(0, 0), at(0, 1), at(0, "k"), at(at(0, 0), 0), at(at(0, "k"), "k") };
        for (auto& p : ps)
            for (auto& l : { V::string(U"a string that is longer than the small buffer"), V::array(), V::object() })
                if (p.path.size() < 2)
                    o.push_back(opc(AssignConst, p, l));
        for (auto& p : { at(0), at(1), at(0, 0) })
        {
            o.push_back(opc(PushConst, p, V::integer(7)));
            o.push_back(op(Clear, p));
            o.push_back(op(MoveThrough, p));
        }
        for (auto& p : ps)
            for (auto& q : ps)
                for (auto a : { Copy, Move, Swap, CopyThrough })
                    if (a != CopyThrough || q.path.size() < 2)
                        o.push_back(op(a, p, q));
        for (auto& p : { at(0), at(1), at(0, 0) })
            for (auto& q : ps)
                for (auto a : { Push, PushMove })
                    o.push_back(op(a, p, q));
        ex.vars = 2;
        ex.enumerate(th ? 4 : 3, 400000);
    }
    ck.add("states", ex.nodes.size(), "every state reachable by " + std::to_string(th ? 4 : 3) + " of " + std::to_string(ex.ops.size()) + " operations on two variables and their parts, and every operation from it",
           [](mc::Ctx& cx, uint64_t i) { ex.from_node(cx, i); });
    static trees::Space sp;
    sp.leaves = { ref::V(), ref::V::boolean(true), ref::V::integer(-7), ref::V::floating(0.5), ref::V::string(U"s"), ref::V::string(U"a string that is longer than the small buffer") };
    sp.keys   = { U"a", U"k" };
    sp.build(th ? 5 : 4);
    ck.add("copies", sp.size(), "every tree of weight up to " + std::to_string(th ? 5 : 4) + " over 6 leaves and 2 keys, 11 ways of copying, 9 edits of every node",
           [](mc::Ctx& cx, uint64_t i) { leakless(cx, sp[i], copies); });
    ck.add("moves", sp.size(), "every tree moved in 7 ways", [](mc::Ctx& cx, uint64_t i) { leakless(cx, sp[i], moves); });
    ck.add("conversions", sp.size(), "every tree through containers, builders and parsing", [](mc::Ctx& cx, uint64_t i) { leakless(cx, sp[i], conversions); });
    static const unsigned N = th ? 1500 : 300;
    ck.add("sizes", (N + mc::big_sizes) * 3, "arrays, objects and nestings of every size below " + std::to_string(N) + " (arrays and objects also of 12 sizes up to 131073) copied and moved",
           [](mc::Ctx& cx, uint64_t i)
           {
               size_t n = mc::size_at(i / 3, N);
               if (i % 3 == 2)
                   n = std::min(n, size_t(1000));
               ref::V v = i % 3 == 1 ? ref::V::object() : ref::V::array();
               if (i % 3 == 2)
                   for (size_t k = 0; k < n; ++k)
                       v = k % 2 ? ref::V::array({ std::move(v), ref::V::string(U"some string that is quite long") }) : ref::V::object({ { U"key", std::move(v) } });
               else
                   for (size_t k = 0; k < n; ++k)
                       if (i % 3 == 0)
                           v.a.push_back(k % 2 ? ref::V::integer(static_cast<long>(k)) : ref::V::array({ ref::V::string(U"s") }));
                       else
                       {
                           char b[16];
                           std::snprintf(b, sizeof b, "%06u", static_cast<unsigned>(k));
                           v.o.emplace_back(ref::ascii(b), k % 2 ? ref::V() : ref::V::string(U"x"));
                       }
               leakless(cx, v, moves);
               auto s = to<json::value>(v);
               auto c = s;
               disjoint(cx, s, c, "a copy");
               if (!(c == s))
                   cx.fail("a copy differs from its source");
               std::vector<json::value*> ns;
               nodes_of(c, ns);
               edit(*ns.back(), 1);
               if (!ref::eq(from(s), v, ref::Cmp()))
                   cx.fail("changing the last node of a copy changed the source");
               cx.eval();
           });
    return mc::run(ck, argc, argv);
}
