// C16: bound structs serialize and load every field by its rule.
#include "kit.hpp"
using S = std::string;
#ifndef PART
#define PART 0
#endif
#if PART == 0
#define STRUCTS_R
#elif PART == 1
#define STRUCTS_O
#elif PART == 2
#define STRUCTS_M
#endif

// what is known of a bound struct: its fields, each with what its type means
struct Ops
{
    V (*shape)(const void*);
    bool (*same)(const void*, const void*);
    bool (*initial)(const void*);
    Load (*load)(const V&, void*);
    void (*level)(void*, unsigned, unsigned);
    uint64_t (*count)(unsigned);
    void (*make)(void*, unsigned, uint64_t);
};
template <class F>
static F field(unsigned i, unsigned l);
template <class F>
static const Ops* ops()
{
    static const Ops o = { [](const void* p) { return K<F>::shape(*static_cast<const F*>(p)); },
                           [](const void* a, const void* b) { return K<F>::same(*static_cast<const F*>(a), *static_cast<const F*>(b)); },
                           [](const void* p) { return K<F>::same(*static_cast<const F*>(p), F{}); },
                           [](const V& v, void* p) { return K<F>::load(v, *static_cast<F*>(p)); },
                           [](void* p, unsigned i, unsigned l) { *static_cast<F*>(p) = field<F>(i, l); },
                           [](unsigned b) { return K<F>::count(b); },
                           [](void* p, unsigned b, uint64_t i) { *static_cast<F*>(p) = K<F>::make(b, i); } };
    return &o;
}
struct Fields
{
    struct One
    {
        void*       p;
        bool        req;
        std::string text;
        U           key;
        const Ops*  ops;
    };
    std::vector<One> f;
    template <class F, class Ch>
    void operator()(F& x, bool req, const Ch* k)
    {
        using G = typename std::remove_cv<F>::type;
        U u     = ref::dec(std::basic_string<Ch>(k));
        f.push_back({ const_cast<G*>(&x), req, ref::utf8(u), u, ops<G>() });
    }
    V shape() const
    {
        std::map<std::string, V> m;  // a wide object sorts by code unit, which for these keys is the same order
        for (auto& x : f)
            if (x.req || !x.ops->initial(x.p))
                m.emplace(x.text, x.ops->shape(x.p));
        V r = V::object();
        for (auto& p : m)
            r.o.emplace_back(ref::dec(p.first), p.second);
        return r;
    }
    bool same(const Fields& b) const
    {
        for (size_t i = 0; i < f.size(); ++i)
            if (!f[i].ops->same(f[i].p, b.f[i].p))
                return false;
        return true;
    }
    // into the struct as it is: absent optional fields stay
    Load load(const V& v)
    {
        bool bad = false, any = false;
        for (auto& x : f)
        {
            const V* p = nullptr;
            for (auto& m : v.o)
                if (v.k == ref::Obj && m.first == x.key)
                    p = &m.second;
            if (!p)
            {
                bad = bad || x.req;
                any = any || (v.k != ref::Obj && v.k != ref::Null);  // not a struct's value at all
                continue;
            }
            Load l = x.ops->load(*p, x.p);
            if (x.req && l == Bad)
                bad = true;
            else if (l != Ok)
                any = true;
        }
        return bad ? Bad : any ? Any : Ok;
    }
};
template <class T>
static Fields fields(const T& x)
{
    Fields f;
    T::each(x, f);
    return f;
}
template <class T>
struct Bound
{
    static V    shape(const T& x) { return fields(x).shape(); }
    static bool same(const T& a, const T& b) { return fields(a).same(fields(b)); }
    static Load load(const V& v, T& x) { return fields(x).load(v); }
};

#include "c16_structs.hpp"

// field i at level l: 0 is its default
template <class F>
F field(unsigned, unsigned)
{
    return F{};
}
template <>
int field<int>(unsigned i, unsigned l) { return l ? static_cast<int>(i * 10 + l) : 0; }
template <>
S field<S>(unsigned i, unsigned l) { return l ? "s" + std::to_string(i * 10 + l) : S(); }
template <>
double field<double>(unsigned i, unsigned l) { return l ? i + l * 0.25 : 0; }
template <>
bool field<bool>(unsigned, unsigned l) { return l != 0; }
template <>
std::vector<int> field<std::vector<int>>(unsigned i, unsigned l) { return l ? std::vector<int>{ static_cast<int>(i), static_cast<int>(l) } : std::vector<int>{}; }

template <class T>
static T filled(const std::vector<bool>& on, unsigned l)
{
    T        x;
    unsigned i = 0;
    for (auto& f : fields(x).f)
    {
        f.ops->level(f.p, i, on[i] ? l : 0);
        ++i;
    }
    return x;
}
static V member_of(const V& v, const U& k)
{
    for (auto& m : v.o)
        if (m.first == k)
            return m.second;
    return V();
}

// make a value from x by every route and compare with its shape
template <class T>
static void writing(mc::Ctx& cx, const T& x, const std::string& n)
{
    V    want = Bound<T>::shape(x);
    auto eq   = [&](const json::value& v, const char* how, const ref::Cmp& cmp = ref::Cmp())
    {
        cx.eval();
        V g = from(v);
        if (want.o.empty() && g.k == ref::Null)
            return;  // a struct with nothing to write
        if (!ref::eq(g, want, cmp))
            cx.fail(n + how + " gave " + ref::show(g) + " instead of " + ref::show(want));
    };
    json::value v = x, w = json::array{ 1, 2 };
    eq(v, " converted");
    w = x;
    eq(w, " assigned");
    eq(json::parse(json::dump(x)), " dumped", ref::literal_cmp());
    std::ostringstream os;
    os << json::wrap(x);
    eq(json::parse(os.str()), " wrapped into a stream", ref::literal_cmp());
    json::value in = json::object{ { "in", x } };
    eq(in["in"], " in an object");
    cx.outcome(shape_hash(want));
}
// read v by every route into a fresh and into a used T
template <class T>
static void loading(mc::Ctx& cx, const V& v, const T& used, const std::string& n, bool all = true)
{
    T    fresh{}, want = used;
    Load lf = Bound<T>::load(v, fresh), lu = Bound<T>::load(v, want);
    const json::value j = to<json::value>(v);
    auto judge = [&](const char* how, Load l, Err e, bool equal)
    {
        if (l == Any)
            return;
        cx.eval();
        if (l == Ok && (e || !equal))
            cx.fail("reading " + ref::show(v) + " as " + n + how + (e ? std::string(" ended with ") + name(e) : " set wrong fields"));
        if (l == Bad && !e)
            cx.fail("reading " + ref::show(v) + " as " + n + how + " succeeded, a required field is missing or wrong");
        if (e == other)
            cx.fail("reading " + ref::show(v) + " as " + n + how + " ended with " + name(e));
    };
    {
        T    g{};
        auto e = attempt([&] { g = j.get<T>(); });
        judge("", lf, e, Bound<T>::same(g, fresh));
    }
    if (all)
    {
        T    g{};
        auto e = attempt([&] { T t = j; g = std::move(t); });
        judge(" implicitly", lf, e, Bound<T>::same(g, fresh));
    }
    {
        T    g  = used;
        bool ok = j.get(g);
        judge(" into a used variable", lu, ok ? none : type_error, Bound<T>::same(g, want));
    }
    if (all)
    {
        T    g = used;
        auto e = attempt([&] { configor::from_value(j, g); });
        judge(" by from_value", lu, e, Bound<T>::same(g, want));
    }
    if (all)
    {
        T                  g = used, fresh{};  // the extracted struct replaces the old one
        auto               text = json::dump(j);
        Load               lf   = Bound<T>::load(from(json::parse(text)), fresh);  // what the parser made of the floats
        std::istringstream is(text);
        auto               e = attempt([&] { is >> json::wrap(g); });
        judge(" from a wrapped stream", lf, e, Bound<T>::same(g, e ? g : fresh));
    }
    cx.outcome(mc::mix(shape_hash(v) + lf));
}

static mc::Check ck;

// the subsets of n fields: all of them up to 10 fields, else those of size 0, 1, 2, n-2, n-1, n
// (of size 0, 1, n-1, n beyond 20 fields in the quick tier)
static bool     deep = false;
static uint64_t subsets(unsigned n) { return n <= 10 ? 1ull << n : deep || n <= 20 ? 2 * (1 + n + n * (n - 1) / 2) : 2 * (1 + n); }
static std::vector<bool> subset(unsigned n, uint64_t i)
{
    std::vector<bool> b(n);
    if (n <= 10)
    {
        for (unsigned k = 0; k < n; ++k)
            b[k] = i >> k & 1;
        return b;
    }
    bool flip = i & 1;
    i /= 2;
    if (i)
    {
        --i;
        if (i < n)
            b[i] = true;
        else
        {
            i -= n;
            for (unsigned k = 1; k < n; ++k)
            {
                if (i < k)
                {
                    b[k] = b[i] = true;
                    break;
                }
                i -= k;
            }
        }
    }
    if (flip)
        b.flip();
    return b;
}

template <class T>
static void arity(mc::Ctx& cx, uint64_t i, const char* n)
{
    auto on = subset(T::n, i);
    // the fields of the subset differ from their defaults
    T x = filled<T>(on, 1 + i % 3);
    writing(cx, x, n);
    auto all = filled<T>(std::vector<bool>(T::n, true), 5);
    V    v   = Bound<T>::shape(x);
    loading(cx, v, all, n);
    {
        T back = json::value(x).template get<T>();
        cx.eval();
        if (!Bound<T>::same(back, x))
            cx.fail(std::string(n) + " came back as another struct from " + ref::show(v));
    }
    // only the fields of the subset present, and an unknown one
    V             full = Bound<T>::shape(all);
    V             part = V::object();
    std::vector<U> ks;
    for (auto& f : fields(x).f)
        ks.push_back(f.key);
    for (auto& m : full.o)
        for (unsigned k = 0; k < T::n; ++k)
            if (ks[k] == m.first && on[k])
                part.o.push_back(m);
    loading(cx, part, x, n);
    part.o.emplace_back(U"zz unknown", V::integer(1));
    loading(cx, part, x, n);
    // one field (chosen by the case, all of them over the family) of a wrong kind, or under a wrong name
    static const V kinds[] = { V(), V::boolean(true), V::integer(7), V::floating(0.5), V::string(U"w"), V::array({ V::integer(1) }), V::array({ V::string(U"x") }), V::object({ { U"q", V::integer(1) } }) };
    for (unsigned k = 0; k < T::n; ++k)
    {
        if (T::n > 10 && k != i % T::n)
            continue;
        V w = full;
        for (auto& m : w.o)
            if (m.first == ks[k])
            {
                if (i / T::n % 9 == 8)
                    m.first = U"f" + ref::ascii(std::to_string(k)) + U"_";
                else
                    m.second = kinds[(T::n > 10 ? i / T::n : i) % 9 % 8];
            }
        loading(cx, w, x, n);
    }
}

// nested structs
struct Leaf
{
    int a{};
    S   b;
    CONFIGOR_BIND(json::value, Leaf, REQUIRED(a), OPTIONAL(b, "bee"))
    template <class X>
    static void each(X& s, Fields& f)
    {
        f(s.a, true, "a");
        f(s.b, false, "bee");
    }
    bool operator==(const Leaf& o) const { return a == o.a && b == o.b; }
    bool operator!=(const Leaf& o) const { return !(*this == o); }
};
struct Mid
{
    Leaf              l;
    std::vector<Leaf> v;
    double            d{};
    CONFIGOR_BIND(json::value, Mid, REQUIRED(l), OPTIONAL(v), REQUIRED(d, "dee"))
    template <class X>
    static void each(X& s, Fields& f)
    {
        f(s.l, true, "l");
        f(s.v, false, "v");
        f(s.d, true, "dee");
    }
    bool operator==(const Mid& o) const { return l == o.l && v == o.v && d == o.d; }
    bool operator!=(const Mid& o) const { return !(*this == o); }
};
struct Top
{
    Mid                  m;
    std::map<S, Mid>     mm;
    std::shared_ptr<Leaf> p;
    std::vector<Leaf>    req;
    Leaf                 o;
    bool                 flag{};
    CONFIGOR_BIND(json::value, Top, REQUIRED(m, "mid"), OPTIONAL(mm), OPTIONAL(p, "ptr"), REQUIRED(req), OPTIONAL(o), OPTIONAL(flag))
    template <class X>
    static void each(X& s, Fields& f)
    {
        f(s.m, true, "mid");
        f(s.mm, false, "mm");
        f(s.p, false, "ptr");
        f(s.req, true, "req");
        f(s.o, false, "o");
        f(s.flag, false, "flag");
    }
};
// fields reached through containers and pointers only
struct Box
{
    std::map<S, Mid>      byname;
    std::array<Leaf, 1>   one;
    std::list<Mid>        mids;
    std::unique_ptr<Mid>  own;
    CONFIGOR_BIND(json::value, Box, REQUIRED(byname), REQUIRED(one), REQUIRED(mids), REQUIRED(own))
    Box() = default;
    Box(const Box& o) { *this = o; }
    Box& operator=(const Box& o)
    {
        byname = o.byname, one = o.one, mids = o.mids;
        own.reset(o.own ? new Mid(*o.own) : nullptr);
        return *this;
    }
    template <class X>
    static void each(X& s, Fields& f)
    {
        f(s.byname, true, "byname");
        f(s.one, true, "one");
        f(s.mids, true, "mids");
        f(s.own, true, "own");
    }
};
template <class T>
struct KS : Bound<T>
{
    static unsigned in(unsigned b) { return b > 1 ? b - 1 : 1; }
    static uint64_t dom(uint64_t c, unsigned b) { return std::min<uint64_t>(c, b >= 3 ? 5 : b == 2 ? 4 : 3); }
    static uint64_t count(unsigned b)
    {
        uint64_t n = 1;
        T        x;
        for (auto& f : fields(x).f)
            n *= dom(f.ops->count(in(b)), b);
        return n;
    }
    static T make(unsigned b, uint64_t i)
    {
        T x;
        for (auto& f : fields(x).f)
        {
            uint64_t c = f.ops->count(in(b)), d = dom(c, b), k = i % d;
            i /= d;
            f.ops->make(f.p, in(b), d < 2 ? 0 : k * (c - 1) / (d - 1));
        }
        return x;
    }
};
#define KIT(T)                                                                                                                                     \
    template <>                                                                                                                                    \
    struct K<T> : KS<T>                                                                                                                            \
    {                                                                                                                                              \
        static std::string name() { return #T; }                                                                                                  \
    };
KIT(Leaf)
KIT(Mid)
KIT(Top)
KIT(Box)

// wide
struct WLeaf
{
    std::wstring a;
    int          b{};
    CONFIGOR_BIND(wjson::value, WLeaf, REQUIRED(a, L"\u00e9a"), OPTIONAL(b, L"b"))
    template <class X>
    static void each(X& s, Fields& f)
    {
        f(s.a, true, L"\u00e9a");
        f(s.b, false, L"b");
    }
    bool operator!=(const WLeaf& o) const { return a != o.a || b != o.b; }
};
struct WTop
{
    WLeaf              l;
    std::vector<WLeaf> v;
    WLeaf              o;
    CONFIGOR_BIND(wjson::value, WTop, REQUIRED(l, L"l"), REQUIRED(v, L"v"), OPTIONAL(o, L"o"))
    template <class X>
    static void each(X& s, Fields& f)
    {
        f(s.l, true, L"l");
        f(s.v, true, L"v");
        f(s.o, false, L"o");
    }
};
template <>
struct K<WLeaf> : KS<WLeaf>
{
    static std::string name() { return "WLeaf"; }
};
template <>
struct K<WTop> : KS<WTop>
{
    static std::string name() { return "WTop"; }
};

// every single change of a value: a part removed, renamed or replaced by another kind
template <class F>
static void mutate(V& root, V& at, F&& f)
{
    static const V kinds[] = { V(), V::boolean(true), V::integer(7), V::floating(0.5), V::string(U"w"), V::array({ V::integer(1) }), V::object({ { U"a", V::string(U"") } }), V::object({ { U"a", V::integer(9) } }) };
    V keep = at;
    for (auto& k : kinds)
    {
        at = k;
        f(root);
        at = keep;
    }
    if (at.k == ref::Arr)
    {
        for (size_t i = 0; i < keep.a.size(); ++i)
        {
            at.a.erase(at.a.begin() + static_cast<long>(i));
            f(root);
            at = keep;
        }
        at.a.push_back(V::object({ { U"a", V::integer(3) } }));
        f(root);
        at = keep;
        for (size_t i = 0; i < at.a.size(); ++i)
            mutate(root, at.a[i], f);
    }
    if (at.k == ref::Obj)
    {
        for (size_t i = 0; i < keep.o.size(); ++i)
        {
            at.o.erase(at.o.begin() + static_cast<long>(i));
            f(root);
            at = keep;
            at.o[i].first += U"~";
            f(root);
            at = keep;
        }
        at.o.emplace_back(U"~more", V());
        f(root);
        at = keep;
        for (size_t i = 0; i < at.o.size(); ++i)
            mutate(root, at.o[i].second, f);
    }
}
template <class T, unsigned B = 3>
static void nested(mc::Ctx& cx, uint64_t i)
{
    T    x = K<T>::make(B, i);
    auto n = K<T>::name();
    writing(cx, x, n);
    V    v    = K<T>::shape(x);
    auto used = K<T>::make(B, (i * 7 + 11) % K<T>::count(B));
    loading(cx, v, used, n);
    T back = json::value(x).template get<T>();
    cx.eval();
    if (!K<T>::same(back, x))
        cx.fail(n + " came back as another struct from " + ref::show(v));
    V copy = v;
    mutate(copy, copy, [&](const V& w) { loading(cx, w, used, n, false); });
}
template <class T>
static void wide(mc::Ctx& cx, uint64_t i)
{
    T           x = K<T>::make(2, i);
    V           r = K<T>::shape(x);
    wjson::value v = x;
    cx.eval(2);
    if (!ref::eq(from(v), r, ref::Cmp()))
        cx.fail(K<T>::name() + " gave " + ref::show(from(v)) + " instead of " + ref::show(r));
    if (!K<T>::same(v.get<T>(), x))
        cx.fail(K<T>::name() + " came back as another struct from " + ref::show(r));
    V copy = r;
    mutate(copy, copy, [&](const V& w)
           {
               T    want{}, got{};
               Load l = K<T>::load(w, want);
               if (l == Any)
                   return;
               wjson::value j = to<wjson::value>(w);
               auto         e = attempt([&] { got = j.get<T>(); });
               cx.eval();
               if (l == Bad ? !e : e || !K<T>::same(got, want))
                   cx.fail("reading " + ref::show(w) + " as " + K<T>::name() + (e ? std::string(" ended with ") + name(e) : " succeeded or set wrong fields"));
           });
    cx.outcome(shape_hash(r));
}

int main(int argc, char** argv)
{
    ck.id     = "C16";
    ck.mem_mb = 0;
    bool th   = mc::is_thorough(argc, argv);
    deep      = th;
    ck.rule   = "every struct arity the macro supports, with every subset of its fields (up to 10 fields; subsets of up to 2 fields and their complements beyond, of up to 1 above 20 fields in the quick tier) set, present or absent, single fields wrong or renamed; nested "
                "structs with every single removal, renaming or change of kind at any depth; all compared with the field rules applied independently; a case is distinct by value and outcome";
    ck.assumptions = { "an optional field present with the wrong kind, and a struct without required fields read from a scalar or an array, are not judged", "a struct with nothing to write may be null or an empty object" };
#if PART < 3
    const char* pn[] = { "required", "optional", "mixed" };
    ck.part          = pn[PART];
#define ADD(T) ck.add(#T, subsets(T::n), "every subset of the fields", [](mc::Ctx& cx, uint64_t i) { arity<T>(cx, i, #T); }, 60, 128);
    STRUCTS(ADD)
#else
    ck.part = "nested";
    ck.add("Leaf", K<Leaf>::count(3), "every object and every single change of its value", nested<Leaf>);
    ck.add("Mid", K<Mid>::count(3), "every object and every single change of its value", nested<Mid>);
    ck.add("Top", th ? K<Top>::count(3) : K<Top>::count(1), "every combination of field variants and every single change of its value", th ? nested<Top, 3> : nested<Top, 1>, 60, 16);
    ck.add("Box", K<Box>::count(3), "every combination of field variants and every single change of its value", nested<Box>, 60, 16);
    ck.add("wide Leaf", K<WLeaf>::count(2), "every object and every single change of its value", wide<WLeaf>);
    ck.add("wide Top", K<WTop>::count(2), "every object and every single change of its value", wide<WTop>);
#endif
    return mc::run(ck, argc, argv);
}
