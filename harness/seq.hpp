// Explicit-state exploration of operation sequences.
//
// The model is a handful of variables holding reference values; an operation is an action on a place
// (a variable, or an element reached through one or two indexing steps) with another place or a constant
// as its operand.  All model states reachable by up to a number of operations are enumerated breadth first;
// for every state and every operation the implementation is driven along a path to the state, its state
// compared with the model's, the operation applied to both, and results and states compared again.
#pragma once
#include "cfg.hpp"
#include "heap.hpp"
#include <algorithm>
#include <set>
#include <unordered_map>

#ifndef SEQ_JSON
#define SEQ_JSON cf::json
#endif
namespace seq
{
using ref::V;
using namespace cf;
#ifdef SEQ_INSERTION_ORDER  // objects keep the order of insertion instead of the keys' order
constexpr bool insertion_order = true;
#else
constexpr bool insertion_order = false;
#endif
struct Step
{
    int         idx = -1;  // array index, or
    const char* key = nullptr;
};
struct Place
{
    int               var = 0;
    std::vector<Step> path;
    std::string       name() const
    {
        std::string s(1, static_cast<char>('a' + var));
        for (auto& p : path)
            s += p.key ? "[\"" + std::string(p.key) + "\"]" : "[" + std::to_string(p.idx) + "]";
        return s;
    }
};
enum Act
{
    AssignConst,
    Copy,
    Move,
    Swap,
    CopyThrough,  // copy construct a temporary, move-assign it
    MoveThrough,  // move construct a temporary, move-assign it back
    Push,
    PushMove,
    PushConst,
    Emplace,
    Touch,
    Clear,
    EraseKey,
    EraseIdx,
    EraseIt,
    EraseCIt,
    EraseRange,
    At,
    AtKey,
    CAt,
    CAtKey,
    Find,
    Count
};
struct Op
{
    Act   act;
    Place dst, src;
    V     val;           // constant operand
    int   i = 0, j = 0;  // indices
    const char* key = "";
    bool  cstr = false;  // use the const char* overloads
    std::string name() const
    {
        static const char* n[] = { "=", "= copy of", "= move of", "swap with", "= copy-constructed from", "moved out and back", "push_back(copy of)", "push_back(move of)", "push_back", "emplace_back",
                                   "touch", "clear", "erase key", "erase index", "erase iterator", "erase const_iterator", "erase range", "at", "at key", "const []", "const [] key", "find", "count" };
        std::string s = dst.name() + " " + n[act];
        switch (act)
        {
        case AssignConst:
        case PushConst:
        case Emplace:
            return s + " " + ref::show(val);
        case Copy:
        case Move:
        case Swap:
        case CopyThrough:
        case Push:
        case PushMove:
            return s + " " + src.name();
        case EraseIdx:
        case EraseIt:
        case EraseCIt:
        case At:
        case CAt:
            return s + " " + std::to_string(i);
        case EraseRange:
            return s + " " + std::to_string(i) + ".." + std::to_string(j);
        case EraseKey:
        case AtKey:
        case CAtKey:
        case Find:
        case Count:
            return s + " \"" + key + "\"" + (cstr ? " (char*)" : "");
        default:
            return s;
        }
    }
};
struct Res
{
    Err  e   = none;
    long ret = 0;
    bool skip = false;  // the operation is meaningless here
};

struct Bad
{
    Err e;
};

// ---- the model ----
using MState = std::vector<V>;
inline V* m_find(V& o, const ref::U& k)
{
    for (auto& m : o.o)
        if (m.first == k)
            return &m.second;
    return nullptr;
}
inline V& m_key(V& v, const char* key)
{
    if (v.k == ref::Null)
        v = V::object();
    if (v.k != ref::Obj)
        throw Bad{ invalid_key };
    auto k = ref::ascii(key);
    if (auto* p = m_find(v, k))
        return *p;
    size_t at = 0;
    while (at < v.o.size() && (insertion_order || v.o[at].first < k))
        ++at;
    v.o.insert(v.o.begin() + static_cast<long>(at), { k, V() });
    return v.o[at].second;
}
inline V& m_idx(V& v, size_t i)
{
    if (v.k == ref::Null)
        v = V::array();
    if (v.k != ref::Arr)
        throw Bad{ invalid_key };
    while (v.a.size() <= i)
        v.a.push_back(V());
    return v.a[i];
}
inline V& m_dst(MState& s, const Place& p)
{
    V* v = &s[static_cast<size_t>(p.var)];
    for (auto& st : p.path)
        v = st.key ? &m_key(*v, st.key) : &m_idx(*v, static_cast<size_t>(st.idx));
    return *v;
}
inline V& m_at(V& v, const Step& st)
{
    if (st.key)
    {
        if (v.k != ref::Obj)
            throw Bad{ invalid_key };
        auto* p = m_find(v, ref::ascii(st.key));
        if (!p)
            throw Bad{ out_of_range };
        return *p;
    }
    if (v.k != ref::Arr)
        throw Bad{ invalid_key };
    if (static_cast<size_t>(st.idx) >= v.a.size())
        throw Bad{ out_of_range };
    return v.a[static_cast<size_t>(st.idx)];
}
inline V& m_src(MState& s, const Place& p)
{
    V* v = &s[static_cast<size_t>(p.var)];
    for (auto& st : p.path)
        v = &m_at(*v, st);
    return *v;
}
inline bool inside(const V* in, const V* out)  // is `in` out itself or part of it
{
    if (in == out)
        return true;
    for (auto& x : out->a)
        if (inside(in, &x))
            return true;
    for (auto& m : out->o)
        if (inside(in, &m.second))
            return true;
    return false;
}
inline size_t m_size(const V& v) { return v.k == ref::Null ? 0 : v.k == ref::Arr ? v.a.size() : v.k == ref::Obj ? v.o.size() : 1; }
inline void   m_push(V& d, V x)
{
    if (d.k == ref::Null)
        d = V::array();
    if (d.k != ref::Arr)
        throw Bad{ type_error };
    d.a.push_back(std::move(x));
}
inline Res m_apply(MState& s, const Op& o)
{
    Res r;
    try
    {
        V& d = m_dst(s, o.dst);
        switch (o.act)
        {
        case AssignConst:
            d = o.val;
            break;
        case Copy:
        case CopyThrough:
        {
            V t = m_src(s, o.src);
            d   = t;
            break;
        }
        case Move:
        {
            V& x = m_src(s, o.src);
            if (&x == &d)
                break;
            if (inside(&d, &x))
            {
                r.skip = true;
                break;
            }
            V t = x;
            x   = V();
            d   = t;
            break;
        }
        case MoveThrough:
            break;
        case Swap:
        {
            V& x = m_src(s, o.src);
            if (&x == &d)
                break;
            if (inside(&d, &x) || inside(&x, &d))
            {
                r.skip = true;
                break;
            }
            std::swap(d, x);
            break;
        }
        case Push:
        {
            V& x = m_src(s, o.src);
            m_push(d, V(x));  // the value as it was, also when it is the null that becomes an array
            break;
        }
        case PushMove:
        {
            V& x = m_src(s, o.src);
            if (inside(&d, &x))
            {
                r.skip = true;
                break;
            }
            if (d.k != ref::Null && d.k != ref::Arr)
                throw Bad{ type_error };
            V t = x;
            x   = V();
            m_push(d, std::move(t));
            break;
        }
        case PushConst:
        case Emplace:
            m_push(d, o.val);
            break;
        case Touch:
            break;
        case Clear:
            switch (d.k)
            {
            case ref::Int:
                d = V::integer(0);
                break;
            case ref::Float:
                d = V::floating(0);
                break;
            case ref::Bool:
                d = V::boolean(false);
                break;
            case ref::Str:
                d = V::string(U"");
                break;
            case ref::Arr:
                d = V::array();
                break;
            case ref::Obj:
                d = V::object();
                break;
            default:
                break;
            }
            break;
        case EraseKey:
        {
            if (d.k != ref::Obj)
                throw Bad{ invalid_key };
            auto k = ref::ascii(o.key);
            for (size_t i = 0; i < d.o.size(); ++i)
                if (d.o[i].first == k)
                {
                    d.o.erase(d.o.begin() + static_cast<long>(i));
                    r.ret = 1;
                    break;
                }
            break;
        }
        case EraseIdx:
            if (d.k != ref::Arr)
                throw Bad{ invalid_key };
            if (static_cast<size_t>(o.i) >= d.a.size())
                throw Bad{ out_of_range };
            d.a.erase(d.a.begin() + o.i);
            break;
        case EraseIt:
        case EraseCIt:
        case EraseRange:
        {
            if (d.k != ref::Arr && d.k != ref::Obj)
                throw Bad{ invalid_iterator };
            size_t b = static_cast<size_t>(o.i), e = o.act == EraseRange ? static_cast<size_t>(o.j) : b + 1, n = m_size(d);
            if (o.act == EraseRange && e > n)
                e = n;
            if (b > e || e > n)
            {
                r.skip = true;
                break;
            }
            if (d.k == ref::Arr)
                d.a.erase(d.a.begin() + static_cast<long>(b), d.a.begin() + static_cast<long>(e));
            else
                d.o.erase(d.o.begin() + static_cast<long>(b), d.o.begin() + static_cast<long>(e));
            r.ret = static_cast<long>(b);
            break;
        }
        case At:
        case CAt:
            r.ret = static_cast<long>(shape_hash(m_at(d, Step{ o.i, nullptr })));
            break;
        case AtKey:
        case CAtKey:
            r.ret = static_cast<long>(shape_hash(m_at(d, Step{ -1, o.key })));
            break;
        case Find:
        {
            r.ret  = static_cast<long>(m_size(d));
            auto k = ref::ascii(o.key);
            if (d.k == ref::Obj)
                for (size_t i = 0; i < d.o.size(); ++i)
                    if (d.o[i].first == k)
                        r.ret = static_cast<long>(i);
            break;
        }
        case Count:
            r.ret = d.k == ref::Obj && m_find(d, ref::ascii(o.key)) ? 1 : 0;
            break;
        }
    }
    catch (Bad& b)
    {
        r.e   = b.e;
        r.ret = 0;
    }
    return r;
}

// ---- the implementation ----
using Val    = SEQ_JSON::value;
using Str    = Val::string_type;
using RState = std::vector<Val>;
inline Val& r_step(Val& v, const Step& st) { return st.key ? v[st.key] : v[static_cast<size_t>(st.idx)]; }
inline Val& r_dst(RState& s, const Place& p)
{
    Val* v = &s[static_cast<size_t>(p.var)];
    for (auto& st : p.path)
        v = &r_step(*v, st);
    return *v;
}
inline Val& r_src(RState& s, const Place& p)
{
    Val* v = &s[static_cast<size_t>(p.var)];
    for (auto& st : p.path)
        v = st.key ? &v->at(Str(st.key)) : &v->at(static_cast<size_t>(st.idx));
    return *v;
}
template <class It>
long position(Val& v, It it)
{
    long n = 0;
    for (auto b = v.begin(), e = v.end(); b != e && It(b) != it; ++b)
        ++n;
    return n;
}
inline const void* content(const Val& v)
{
    return v.is_array() ? static_cast<const void*>(v.data().vector) : v.is_object() ? static_cast<const void*>(v.data().object) : v.is_string() ? static_cast<const void*>(v.data().string) : nullptr;
}
inline Res r_apply(mc::Ctx& cx, RState& s, const Op& o)
{
    Res r;
    r.e = attempt(
        [&]
        {
            Val& d = r_dst(s, o.dst);
            switch (o.act)
            {
            case AssignConst:
            {
                Val  t = to<Val>(o.val);
                Val& x = (d = std::move(t));
                if (&x != &d)
                    cx.fail("assignment does not return its target");
                if (!t.is_null())
                    cx.fail("a moved-from value is not null");
                break;
            }
            case Copy:
            {
                Val& x = (d = r_src(s, o.src));
                if (&x != &d)
                    cx.fail("assignment does not return its target");
                break;
            }
            case CopyThrough:
            {
                Val t(r_src(s, o.src));
                if (content(t) && content(t) == content(r_src(s, o.src)))
                    cx.fail("a copy shares its content with the source");
                d = std::move(t);
                break;
            }
            case Move:
            {
                Val&        x = r_src(s, o.src);
                const void* c = content(x);
                bool        self = &x == &d;
                auto        k = x.type();
                d = std::move(x);  // x may be gone afterwards, when it was part of d
                if (content(d) != c || d.type() != k)
                    cx.fail("a move did not hand over the content itself");
                break;
            }
            case MoveThrough:
            {
                const void* c = content(d);
                Val         t(std::move(d));
                if (!d.is_null() || d.size() || !d.empty())
                    cx.fail("a moved-from value is not null");
                if (content(t) != c)
                    cx.fail("a move did not hand over the content itself");
                d = std::move(t);
                if (!t.is_null())
                    cx.fail("a moved-from value is not null");
                break;
            }
            case Swap:
            {
                Val&        x = r_src(s, o.src);
                const void *c = content(x), *f = content(d);
                d.swap(x);
                if (content(d) != c || content(x) != f)
                    cx.fail("swap did not exchange the contents themselves");
                break;
            }
            case Push:
                d.push_back(r_src(s, o.src));
                break;
            case PushMove:
            {
                Val&        x = r_src(s, o.src);
                const void* c = content(x);
                d.push_back(std::move(x));
                if (c && content((*d.data().vector).back()) != c)
                    cx.fail("push_back of a moved value did not hand over the content itself");
                break;
            }
            case PushConst:
            {
                Val t = to<Val>(o.val);
                d.push_back(t);
                break;
            }
            case Emplace:
                switch (o.val.k)
                {
                case ref::Null:
                    d.emplace_back(nullptr);
                    break;
                case ref::Bool:
                    d.emplace_back(o.val.b);
                    break;
                case ref::Int:
                    d.emplace_back(static_cast<int>(o.val.i));
                    break;
                case ref::Float:
                    d.emplace_back(static_cast<double>(o.val.f));
                    break;
                case ref::Str:
                    d.emplace_back(ref::utf8(o.val.s).c_str());
                    break;
                default:
                    d.emplace_back(to<Val>(o.val));
                    break;
                }
                break;
            case Touch:
                break;
            case Clear:
                d.clear();
                break;
            case EraseKey:
                r.ret = static_cast<long>(d.erase(Str(o.key)));
                break;
            case EraseIdx:
                d.erase(static_cast<size_t>(o.i));
                break;
            case EraseIt:
            {
                auto it = d.begin();
                for (int k = 0; k < o.i; ++k)
                    ++it;
                r.ret = position(d, d.erase(it));
                break;
            }
            case EraseCIt:
            {
                auto it = d.cbegin();
                for (int k = 0; k < o.i; ++k)
                    ++it;
                Val::const_iterator x = static_cast<Val&>(d).erase(it);
                r.ret                 = position(d, x);
                break;
            }
            case EraseRange:
            {
                auto b = d.begin(), e = d.begin();
                for (int k = 0; k < o.i; ++k)
                    ++b;
                for (int k = 0; k < o.j && e != d.end(); ++k)
                    ++e;
                r.ret = position(d, d.erase(b, e));
                break;
            }
            case At:
            {
                Val& x = d.at(static_cast<size_t>(o.i));
                if (&x != &(*d.data().vector)[static_cast<size_t>(o.i)])
                    cx.fail("at() does not refer to the element");
                r.ret = static_cast<long>(shape_hash(from(x)));
                break;
            }
            case CAt:
            {
                const Val& cd = d;
                r.ret         = static_cast<long>(shape_hash(from(cd[static_cast<size_t>(o.i)])));
                break;
            }
            case AtKey:
            {
                Val& x = o.cstr ? d.at(o.key) : d.at(Str(o.key));
                if (&x != &d.data().object->find(o.key)->second)
                    cx.fail("at() does not refer to the member");
                r.ret = static_cast<long>(shape_hash(from(x)));
                break;
            }
            case CAtKey:
            {
                const Val& cd = d;
                r.ret         = static_cast<long>(shape_hash(from(o.cstr ? cd[o.key] : cd[Str(o.key)])));
                break;
            }
            case Find:
            {
                const Val& cd = d;
                auto       it = d.find(o.key);
                auto       ci = cd.find(o.key);
                r.ret         = position(d, it);
                if (position(d, ci) != r.ret)
                    cx.fail("find and const find differ");
                if (d.is_object() && it != d.end() && (it.key() != o.key || ci.key() != o.key))
                    cx.fail("find returned another member");
                if (!d.is_object())
                    r.ret = it == d.end() ? static_cast<long>(d.size()) : -1;
                break;
            }
            case Count:
                r.ret = static_cast<long>(d.count(o.key));
                break;
            }
        });
    if (r.e)
        r.ret = 0;
    return r;
}

// whole observable state of one value against its model
inline void look(mc::Ctx& cx, const Val& v, const V& m, std::set<const void*>& seen, const std::string& where)
{
    static const value_constant::type kinds[] = { value_constant::null, value_constant::integer, value_constant::floating, value_constant::string, value_constant::array, value_constant::object, value_constant::boolean };
    if (v.type() != kinds[m.k])
        cx.fail(where + " has the kind " + configor::to_string(v.type()) + ", it must be " + configor::to_string(kinds[m.k]));
    if (v.is_null() != (m.k == ref::Null) || v.is_bool() != (m.k == ref::Bool) || v.is_integer() != (m.k == ref::Int) || v.is_floating() != (m.k == ref::Float) || v.is_string() != (m.k == ref::Str)
        || v.is_array() != (m.k == ref::Arr) || v.is_object() != (m.k == ref::Obj) || v.is_number() != (m.k == ref::Int || m.k == ref::Float))
        cx.fail(where + ": the kind predicates disagree with the kind");
    if (v.size() != m_size(m) || v.empty() != (m_size(m) == 0))
        cx.fail(where + " has size " + std::to_string(v.size()) + (v.empty() ? " and is empty" : " and is not empty") + ", its model has size " + std::to_string(m_size(m)));
    if (auto c = content(v))
        if (!seen.insert(c).second)
            cx.fail(where + " shares its content with another value");
    switch (m.k)
    {
    case ref::Bool:
        if (v.data().boolean != m.b)
            cx.fail(where + " holds another boolean");
        break;
    case ref::Int:
        if (v.data().integer != m.i)
            cx.fail(where + " holds another integer");
        break;
    case ref::Float:
        if (v.data().floating != static_cast<double>(m.f))
            cx.fail(where + " holds another float");
        break;
    case ref::Str:
        if (*v.data().string != ref::utf8(m.s).c_str() && ref::dec(std::string(v.data().string->begin(), v.data().string->end())) != m.s)
            cx.fail(where + " holds another string");
        break;
    case ref::Arr:
        for (size_t i = 0; i < m.a.size(); ++i)
            look(cx, v[i], m.a[i], seen, where + "[" + std::to_string(i) + "]");
        break;
    case ref::Obj:
    {
        auto it = v.begin();
        for (size_t i = 0; i < m.o.size(); ++i, ++it)
        {
            auto u = ref::utf8(m.o[i].first);
            Str  k(u.begin(), u.end());
            if (it == v.end() || it.key() != k)
                cx.fail(where + ": member number " + std::to_string(i) + " is not \"" + u + "\"");
            if (v.count(k) != 1 || &v.at(k) != &*it)
                cx.fail(where + ": lookup of \"" + u + "\" fails");
            look(cx, *it, m.o[i].second, seen, where + "[\"" + u + "\"]");
        }
        break;
    }
    default:
        break;
    }
}
inline void look(mc::Ctx& cx, const RState& r, const MState& m)
{
    std::set<const void*> seen;
    for (size_t i = 0; i < m.size(); ++i)
        look(cx, r[i], m[i], seen, std::string(1, static_cast<char>('a' + i)));
}
inline uint64_t state_hash(const MState& m)
{
    uint64_t h = 1;
    for (auto& v : m)
        h = mc::mix(h * 1000003 + shape_hash(v));
    return h;
}
inline std::string show(const MState& m)
{
    std::string s;
    for (size_t i = 0; i < m.size(); ++i)
        s += std::string(i ? ", " : "") + static_cast<char>('a' + i) + " = " + ref::show(m[i]);
    return s;
}

struct Explorer
{
    std::vector<Op> ops;
    size_t          vars = 2;
    struct Node
    {
        uint32_t parent, op, depth;
    };
    std::vector<Node> nodes;

    // enumerate the model's states up to `depth` operations (no state beyond max nodes of a value)
    static size_t weight(const V& v)
    {
        size_t n = 1;
        for (auto& x : v.a)
            n += weight(x);
        for (auto& x : v.o)
            n += weight(x.second);
        return n;
    }
    size_t max_weight = 12;
    bool   cut(const MState& s) const
    {
        size_t n = 0;
        for (auto& v : s)
            n += weight(v);
        return n > max_weight;
    }
    void enumerate(unsigned depth, size_t cap = SIZE_MAX)
    {
        std::unordered_map<uint64_t, uint32_t> known;
        MState                                 s0(vars);
        nodes = { { 0, 0, 0 } };
        known.emplace(state_hash(s0), 0);
        std::vector<MState> layer{ s0 };
        size_t              first = 0;
        for (unsigned d = 1; d <= depth && nodes.size() < cap; ++d)
        {
            std::vector<MState> next;
            size_t              begin = first;
            first                     = nodes.size();
            for (size_t k = 0; k < layer.size(); ++k)
                for (size_t o = 0; o < ops.size(); ++o)
                {
                    MState t = layer[k];
                    if (m_apply(t, ops[o]).skip || cut(t))
                        continue;
                    if (known.emplace(state_hash(t), static_cast<uint32_t>(nodes.size())).second)
                    {
                        nodes.push_back({ static_cast<uint32_t>(begin + k), static_cast<uint32_t>(o), d });
                        next.push_back(std::move(t));
                    }
                }
            layer = std::move(next);
        }
    }
    std::vector<uint32_t> path(size_t n) const
    {
        std::vector<uint32_t> p(nodes[n].depth);
        for (size_t k = nodes[n].depth; k-- > 0; n = nodes[n].parent)
            p[k] = nodes[n].op;
        return p;
    }
    std::string describe(const std::vector<uint32_t>& p) const
    {
        std::string s;
        for (auto o : p)
            s += ops[o].name() + "; ";
        return s;
    }
    void step(mc::Ctx& cx, RState& r, MState& m, const Op& o, const std::vector<uint32_t>& before) const
    {
        MState keep = m;
        Res    want = m_apply(m, o);
        if (want.skip)
        {
            m = keep;
            return;
        }
        Res got;
        try
        {
            got = r_apply(cx, r, o);
            if (got.e != want.e)
                cx.fail(std::string("ended with ") + name(got.e) + ", it must end with " + name(want.e));
            if (!want.e && got.ret != want.ret)
                cx.fail("returned " + std::to_string(got.ret) + ", it must return " + std::to_string(want.ret));
            look(cx, r, m);
        }
        catch (mc::Fail& f)
        {
            cx.fail("after " + describe(before) + "(" + show(keep) + ") the operation " + o.name() + ": " + f.msg + "; the model is then " + show(m));
        }
    }
    // every operation from the state of node n
    void from_node(mc::Ctx& cx, size_t n) const
    {
        auto p = path(n);
        long leak = 0;
        for (int attempt = 0; attempt < 2; ++attempt)
        {
            long live = heap::live;
            run_node(cx, p);
            leak = heap::live - live;
            if (!leak)
                break;
        }
        if (leak)
            cx.fail("after " + describe(p) + "and each of the operations, " + std::to_string(leak) + " blocks of memory are lost");
        cx.state(mc::mix(n));
    }
    void run_node(mc::Ctx& cx, const std::vector<uint32_t>& p) const
    {
        MState m(vars);
        for (auto o : p)
            m_apply(m, ops[o]);
        for (auto& o : ops)
        {
            RState r(vars);
            MState mm(vars);
            for (auto k : p)
            {
                Res w = m_apply(mm, ops[k]);
                if (!w.skip)
                    (void)r_apply(cx, r, ops[k]);
            }
            step(cx, r, mm, o, p);
            cx.eval();
            cx.transition();
            cx.trace();
            cx.outcome(state_hash(mm));
        }
        cx.note(describe(p) + "gives " + show(m) + "; then each of " + std::to_string(ops.size()) + " operations");
    }
    // a whole sequence, compared after every operation
    void sequence(mc::Ctx& cx, const std::vector<uint32_t>& p) const
    {
        long leak = 0;
        for (int attempt = 0; attempt < 2; ++attempt)
        {
            long live = heap::live;
            {
                RState                r(vars);
                MState                m(vars);
                std::vector<uint32_t> before;
                before.reserve(p.size());
                for (auto k : p)
                {
                    step(cx, r, m, ops[k], before);
                    before.push_back(k);
                    cx.transition();
                }
                if (cx.verbose)
                    cx.note(describe(p) + "gives " + show(m));
                cx.outcome(state_hash(m));
            }
            cx.eval();
            cx.trace();
            leak = heap::live - live;
            if (!leak)
                break;
        }
        if (leak)
            cx.fail("after " + describe(p) + std::to_string(leak) + " blocks of memory are lost");
    }
};
inline Place at(int var) { return Place{ var, {} }; }
inline Place at(int var, int i) { return Place{ var, { Step{ i, nullptr } } }; }
inline Place at(int var, const char* k) { return Place{ var, { Step{ -1, k } } }; }
inline Place at(Place p, int i)
{
    p.path.push_back(Step{ i, nullptr });
    return p;
}
inline Place at(Place p, const char* k)
{
    p.path.push_back(Step{ -1, k });
    return p;
}
inline Op op(Act a, Place d) { return Op{ a, std::move(d), {}, {} }; }
inline Op op(Act a, Place d, Place s) { return Op{ a, std::move(d), std::move(s), {} }; }
inline Op opc(Act a, Place d, V v) { return Op{ a, std::move(d), {}, std::move(v) }; }
inline Op opi(Act a, Place d, int i, int j = 0) { return Op{ a, std::move(d), {}, {}, i, j }; }
inline Op opk(Act a, Place d, const char* k, bool c = false)
{
    Op o  = op(a, std::move(d));
    o.key = k;
    o.cstr = c;
    return o;
}
}  // namespace seq
