// C15: standard containers, arrays and smart pointers convert to values and back unchanged.
#include "kit.hpp"

static mc::Check ck;
template <class Val, class T>
static void add()
{
    std::string n = K<T>::name();
    ck.add("objects " + n, K<T>::count(size_budget<T>()), "every " + n + " within size budget " + std::to_string(size_budget<T>()), [](mc::Ctx& cx, uint64_t i) { object<Val, T>(cx, i); }, 60, 64);
    ck.add("readings " + n, foreign.size(), "every value of the tree space read as " + n, [](mc::Ctx& cx, uint64_t i) { misread<Val, T>(cx, i); }, 60, 256);
}
template <class Val, class E>
static void seqs()
{
    add<Val, vector<E>>();
    add<Val, deque<E>>();
    add<Val, list<E>>();
    add<Val, forward_list<E>>();
}
template <class Val, class E>
static void sets()
{
    add<Val, set<E>>();
    add<Val, unordered_set<E>>();
}
template <class Val, class E>
static void maps()
{
    add<Val, map<typename Val::string_type, E>>();
    add<Val, unordered_map<typename Val::string_type, E>>();
}
template <class Val, class E>
static void ptrs()
{
    add<Val, unique_ptr<E>>();
    add<Val, shared_ptr<E>>();
}
#ifndef PART
#define PART 0
#endif

// C arrays
template <class Val, class E, size_t N>
static void c_array(mc::Ctx& cx, uint64_t i)
{
    using A     = std::array<E, N>;
    auto     c  = K<E>::count(1);
    E        a[N], b[N];
    V        r = V::array();
    uint64_t x = i;
    for (size_t k = 0; k < N; ++k, x /= c)
    {
        a[k] = K<E>::make(1, x % c);
        b[k] = K<E>::make(1, (x / 3 + k) % c);
        r.a.push_back(K<E>::shape(a[k]));
    }
    std::string what = "making a value from a C array " + ref::show(r);
    Val         v(a);
    expect(cx, v, r, what);
    Val w = to<Val>(V::array({ V(), V(), V(), V(), V(), V() }));
    w     = a;
    expect(cx, w, r, what + " assigned");
    bool ok = v.get(b);
    for (size_t k = 0; k < N; ++k)
        ok = ok && K<E>::same(a[k], b[k]);
    if (!ok)
        cx.fail("reading it back gave another array: " + ref::show(r));
    // a shorter and a longer array: the common part is read, nothing is written past it
    for (size_t m = 0; m <= N + 2; ++m)
    {
        V s = V::array(), want = V::array();
        for (size_t k = 0; k < m; ++k)
            s.a.push_back(K<E>::shape(K<E>::make(1, (i + k) % c)));
        Val sv = to<Val>(s);
        A   t, old;
        E   ct[N];
        for (size_t k = 0; k < N; ++k)
            ct[k] = t[k] = old[k] = K<E>::make(1, (i + k + 1) % c);
        if (!sv.get(t) || !sv.get(ct))
            cx.fail("reading " + ref::show(s) + " as an array of " + std::to_string(N) + " failed");
        cx.eval(2);
        for (size_t k = 0; k < N; ++k)
        {
            V want = k < m ? s.a[k] : K<E>::shape(old[k]);
            if (!ref::eq(K<E>::shape(t[k]), want, ref::Cmp()) || !ref::eq(K<E>::shape(ct[k]), want, ref::Cmp()))
                cx.fail("reading " + ref::show(s) + " into an array of " + std::to_string(N) + " left element " + std::to_string(k) + " as " + ref::show(K<E>::shape(t[k])) + " and " + ref::show(K<E>::shape(ct[k])));
        }
    }
    // a wrong element
    for (size_t k = 0; k < N; ++k)
    {
        V s    = r;
        s.a[k] = K<E>::shape(a[0]).k == ref::Bool ? V::integer(1) : V::boolean(true);
        if (to<Val>(s).get(b))
            cx.fail("reading " + ref::show(s) + " into an array of " + std::to_string(N) + " succeeded");
    }
    cx.outcome(shape_hash(r));
}
template <class Val, class E, size_t N>
static void add_c(const char* n)
{
    ck.add(std::string(n) + "[" + std::to_string(N) + "]", ipow(K<E>::count(1), N), "every C array and array prefix of this type", c_array<Val, E, N>);
}

int main(int argc, char** argv)
{
    ck.id     = "C15";
    ck.mem_mb = 0;
    bool th   = mc::is_thorough(argc, argv);
    budget    = th ? 9 : 6;
    cap       = th ? 60000 : 3000;
    ck.rule   = "every object of each container type within the size budget (sequences up to the budget of 6 (9), inner ones one less, element domains of 2 to 5; the budget of a type is lowered until it has at most 3000 (60000) objects) converted to a value and back into fresh and used variables, and "
                "every value tree of the bounded space read as each type, against an independent per-type shape and reader; a case is distinct by value and outcome";
    ck.assumptions = { "a pointer to a null pointer is not representable; an empty container of the other kind, a fixed array longer than the value (by value) and integers outside the element type are not judged" };
    static trees::Space sp;
    sp.leaves = { V(), V::boolean(true), V::integer(3), V::floating(0.5), V::string(U"a") };
    sp.keys   = { U"", U"k" };
    sp.build(th ? 5 : 4);
    for (uint64_t i = 0; i < sp.size(); ++i)
        foreign.push_back(sp[i]);
    using J  = json::value;
    using W  = wjson::value;
    using S  = std::string;
    using WS = std::wstring;
#if PART == 0
    ck.part = "flat";
    seqs<J, int>();
    seqs<J, S>();
    seqs<J, double>();
    seqs<J, bool>();
    seqs<J, long long>();
    seqs<J, unsigned char>();
    sets<J, int>();
    sets<J, S>();
    sets<J, long long>();
    maps<J, int>();
    maps<J, S>();
    maps<J, bool>();
    ptrs<J, int>();
    ptrs<J, S>();
    ptrs<J, double>();
    ptrs<J, bool>();
    add<J, vector<J>>();
    add<J, map<S, J>>();
    add<J, std::array<int, 0>>();
    add<J, std::array<int, 1>>();
    add<J, std::array<int, 3>>();
    add<J, std::array<S, 2>>();
    add<J, std::array<double, 4>>();
    add<J, std::array<bool, 5>>();
    add_c<J, int, 1>("int");
    add_c<J, int, 3>("int");
    add_c<J, S, 2>("string");
    add_c<J, double, 4>("double");
    add_c<J, bool, 5>("bool");
    add_c<J, vector<int>, 2>("vector");
    ck.add("long", 700 + mc::big_sizes, "containers of every length 0..699 and of 12 lengths up to 131073", [](mc::Ctx& cx, uint64_t idx)
           {
               uint64_t n = mc::size_at(idx, 700);
               vector<int>           v;
               deque<int>            d;
               list<int>             l;
               forward_list<int>     f;
               set<int>              s;
               unordered_set<int>    us;
               map<S, int>           m;
               unordered_map<S, int> um;
               V                     r = V::array();
               for (int i = 0; i < static_cast<int>(n); ++i)
               {
                   int x = i * 3 + 1;
                   v.push_back(x), d.push_back(x), l.push_back(x), s.insert(x), us.insert(x);
                   m[std::to_string(i * 7919)] = x, um[std::to_string(i * 7919)] = x;
                   r.a.push_back(V::integer(x));
               }
               f.assign(v.begin(), v.end());
               auto go = [&](auto& c, const V& want)
               {
                   using T = typename std::remove_reference<decltype(c)>::type;
                   J x(c);
                   expect(cx, x, want, "making a value from " + K<T>::name() + " of " + std::to_string(n));
                   T    back = x.template get<T>(), used = c;
                   bool ok = x.get(used);
                   cx.eval(2);
                   if (!(back == c) || !ok || !(used == c))
                       cx.fail("reading back " + K<T>::name() + " of " + std::to_string(n) + " gave another object");
               };
               go(v, r), go(d, r), go(l, r), go(f, r), go(s, r), go(us, K<unordered_set<int>>::shape(us));
               go(m, K<map<S, int>>::shape(m)), go(um, K<map<S, int>>::shape(m));
               cx.outcome(n);
           });
#elif PART == 1
    ck.part = "nested";
    seqs<J, vector<int>>();
    seqs<J, map<S, int>>();
    seqs<J, unique_ptr<int>>();
    seqs<J, shared_ptr<S>>();
    add<J, set<vector<int>>>();
    add<J, set<set<bool>>>();
    maps<J, vector<int>>();
    maps<J, map<S, bool>>();
    maps<J, unique_ptr<int>>();
    ptrs<J, vector<int>>();
    ptrs<J, map<S, int>>();
    ptrs<J, list<S>>();
    add<J, std::array<vector<int>, 2>>();
    add<J, std::array<std::array<bool, 2>, 2>>();
    add<J, std::array<unique_ptr<int>, 3>>();
    add<J, vector<std::array<int, 1>>>();
    add<J, list<forward_list<int>>>();
    add<J, deque<unordered_set<bool>>>();
    add<J, forward_list<list<int>>>();
    add<J, vector<deque<S>>>();
    add<J, map<S, unordered_map<S, bool>>>();
#else
    ck.part = "deep";
    add<J, vector<vector<vector<bool>>>>();
    add<J, map<S, vector<shared_ptr<bool>>>>();
    add<J, vector<map<S, set<bool>>>>();
    add<J, unique_ptr<vector<map<S, int>>>>();
    add<J, vector<vector<J>>>();
    add<J, map<S, map<S, J>>>();
    seqs<W, int>();
    seqs<W, WS>();
    sets<W, WS>();
    maps<W, int>();
    maps<W, WS>();
    ptrs<W, WS>();
    add<W, vector<W>>();
    add<W, map<WS, W>>();
    add<W, vector<map<WS, bool>>>();
    add<W, std::array<WS, 2>>();
    add_c<W, WS, 2>("wstring");
#endif
    return mc::run(ck, argc, argv);
}
