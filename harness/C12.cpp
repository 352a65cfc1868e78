// C12: iterators visit each element once, in order, in both directions.
#include "cfg.hpp"
#include <algorithm>
#include <numeric>
using namespace cf;

// subject number s: null, five scalars, arrays and objects of each size
static const unsigned max_size = 6, scalars = 6, subjects = scalars + 2 * (max_size + 1);
template <class Val>
struct Subject
{
    Val                                     v;
    std::vector<Val*>                       el;
    std::vector<typename Val::string_type> keys;
    bool                                    arr = false, obj = false, null = false;
    long                                    n = 0;
    std::string                             name;
    static typename Val::string_type        str(const std::string& s) { return typename Val::string_type(s.begin(), s.end()); }
    explicit Subject(unsigned s, bool nested = false)
    {
        using C = configor::value_constant;
        if (s < scalars)
        {
            switch (s)
            {
            case 0:
                null = true;
                break;
            case 1:
                v = true;
                break;
            case 2:
                v = 5;
                break;
            case 3:
                v = 2.5;
                break;
            case 4:
                v = str("text");
                break;
            case 5:
                v = str("");
                break;
            }
            if (!null)
                el.push_back(&v);
            name = null ? "null" : "a scalar";
        }
        else if (s < scalars + max_size + 1)
        {
            arr = true;
            v   = C::array;
            for (unsigned k = 0; k < s - scalars; ++k)
                v.push_back(nested && k % 2 ? Val(C::array) : Val(static_cast<int>(k)));
            name = "an array of " + std::to_string(s - scalars);
        }
        else
        {
            obj = true;
            v   = C::object;
            static const char* ks[] = { "", "A", "b", "ba", "c", "z" };
            unsigned           m    = s - scalars - max_size - 1;
            for (unsigned k = 0; k < m; ++k)  // inserted in another order than the keys'
                v[str(ks[(k * 5 + 1) % 6 < m ? (k * 5 + 1) % 6 : k])];
            for (unsigned k = 0; k < m; ++k)
                v[str(ks[k])] = static_cast<int>(k);
            name = "an object of " + std::to_string(m);
        }
        relink();
    }
    void relink()
    {
        el.clear();
        keys.clear();
        if (arr)
            for (auto& x : *v.data().vector)
                el.push_back(&x);
        else if (obj)
            for (auto& m : *v.data().object)
            {
                el.push_back(&m.second);
                keys.push_back(m.first);
            }
        else if (!null)
            el.push_back(&v);
        n = static_cast<long>(el.size());
    }
};

template <class It>
struct Kind;
// an iterator (of whatever kind) at position p of the subject: everything observable must say so
template <class Val, class It>
void at_position(mc::Ctx& cx, Subject<Val>& s, It it, It b, It e, long p, bool rev, const std::string& how)
{
    auto bad = [&](const std::string& w) { cx.fail((rev ? "a reverse iterator over " : "an iterator over ") + s.name + how + ": " + w); };
    if ((it == b) != (p == 0) || (it != b) != (p != 0))
        bad("comparison with begin is wrong at position " + std::to_string(p));
    if ((it == e) != (p == s.n) || (it != e) == (p == s.n))
        bad("comparison with end is wrong at position " + std::to_string(p));
    if (p < s.n)
    {
        auto& want = *s.el[static_cast<size_t>(rev ? s.n - 1 - p : p)];
        if (&*it != &want || it.operator->() != &want)
            bad("it refers to another element than number " + std::to_string(p));
    }
    {
        // copies, assignments over iterators that stand elsewhere, and swaps
        It c(it), x(b), y(e), z(it);
        x = it;
        y = it;
        z = *&z;
        if (!(c == it) || !(x == it) || !(y == it) || !(z == it) || x != y || (x == e) != (p == s.n) || (y == b) != (p == 0))
            bad("a copy is at another position than " + std::to_string(p));
        if (p < s.n && (&*x != &*it || &*y != &*it))
            bad("a copy refers to another element than number " + std::to_string(p));
        It m(b), k(it);
        std::swap(m, k);
        if (!(m == it) || !(k == b))
            bad("swapped iterators are not at each other's position");
        if constexpr (std::is_same<It, typename Val::iterator>::value)
        {
            using CI = typename Val::const_iterator;
            const Val& cv = s.v;
            CI         cc(it), cb = cv.begin(), ce = cv.end();
            cb = it;
            ce = it;
            CI d = cv.cend();
            d    = cc;
            for (auto& i : { cc, cb, ce, d })
                if ((i == cv.cbegin()) != (p == 0) || (i == cv.cend()) != (p == s.n) || !(i == cc) || (p < s.n && std::addressof(*i) != std::addressof(*it)))
                    bad("a const iterator made from it is at another position than " + std::to_string(p));
        }
    }
    if (s.arr)
    {
        if (it - b != p || e - it != s.n - p || b - it != -p)
            bad("differences are wrong at position " + std::to_string(p));
    }
    if (!s.obj && !s.null)
    {
        if ((b < it) != (p > 0) || (it < e) != (p < s.n) || (it > b) != (p > 0) || (e > it) != (p < s.n) || !(b <= it) || !(it <= e) || !(it >= b) || !(e >= it) || (it <= b) != (p == 0) || (it >= e) != (p == s.n)
            || (it < b) || (e < it))
            bad("ordering is wrong at position " + std::to_string(p));
    }
    cx.eval();
}
template <class Val, class It>
void key_value(mc::Ctx& cx, Subject<Val>& s, It it, long p, bool rev)
{
    if (p >= s.n)
        return;
    size_t k = static_cast<size_t>(rev ? s.n - 1 - p : p);
    if (&it.value() != s.el[k])
        cx.fail("value() of an iterator over " + s.name + " refers to another element than number " + std::to_string(p));
    auto e = attempt([&] { (void)it.key(); });
    if (s.obj ? e != none : e != invalid_iterator)
        cx.fail("key() of an iterator over " + s.name + " ended with " + name(e));
    if (s.obj && it.key() != s.keys[k])
        cx.fail("key() over " + s.name + " is not the key of member " + std::to_string(p));
}

static const int moves = 10;
// 0 ++it, 1 it++, 2 --it, 3 it--, 4 it+=1, 5 it+=2, 6 it-=1, 7 it-=2, 8 it=it+1, 9 it=it-1
static long delta(unsigned m) { return m == 0 || m == 1 || m == 4 || m == 8 ? 1 : m == 5 ? 2 : m == 7 ? -2 : -1; }
template <class Val, class It>
void walk(mc::Ctx& cx, Subject<Val>& s, It b, It e, bool rev, const std::vector<unsigned>& w)
{
    It          it = b;
    long        p  = 0;
    std::string how;
    for (auto m : w)
    {
        static const char* nm[] = { " ++it", " it++", " --it", " it--", " it+=1", " it+=2", " it-=1", " it-=2", " it+1", " it-1" };
        long               q    = s.null ? 0 : p + delta(m);
        if (q < 0 || q > s.n)
            return;  // outside the range
        how += nm[m];
        auto err = attempt(
            [&]
            {
                switch (m)
                {
                case 0:
                {
                    auto& r = ++it;
                    if (static_cast<const void*>(&r) != static_cast<const void*>(&it))
                        cx.fail("++it does not return the iterator");
                    break;
                }
                case 1:
                {
                    It old(it);
                    auto o = it++;
                    if (!(o == old))
                        cx.fail("it++ does not return the old position over " + s.name);
                    break;
                }
                case 2:
                    --it;
                    break;
                case 3:
                {
                    It old(it);
                    auto o = it--;
                    if (!(o == old))
                        cx.fail("it-- does not return the old position over " + s.name);
                    break;
                }
                case 4:
                    it += 1;
                    break;
                case 5:
                    it += 2;
                    break;
                case 6:
                    it -= 1;
                    break;
                case 7:
                    it -= 2;
                    break;
                case 8:
                {
                    auto x = it + 1;
                    at_position(cx, s, it, b, e, p, rev, how);
                    it += 1;
                    if (!(x == it))
                        cx.fail("it + 1 and it += 1 differ over " + s.name);
                    break;
                }
                case 9:
                {
                    auto x = it - 1;
                    at_position(cx, s, it, b, e, p, rev, how);
                    it -= 1;
                    if (!(x == it))
                        cx.fail("it - 1 and it -= 1 differ over " + s.name);
                    break;
                }
                }
            });
        if (s.obj && m >= 4)
        {
            if (err != invalid_iterator)
                cx.fail("an offset over an object ended with " + std::string(name(err)));
            at_position(cx, s, it, b, e, p, rev, how + " (refused)");
            continue;
        }
        if (err)
            cx.fail("moving" + how + " over " + s.name + " ended with " + name(err));
        p = q;
        at_position(cx, s, it, b, e, p, rev, how);
        cx.transition();
    }
    cx.state(mc::mix(static_cast<uint64_t>(p) * 1000 + mc::hash(s.name) + rev + sizeof(typename Val::char_type)));
    cx.trace();
}
template <class Val>
void four(mc::Ctx& cx, unsigned sn, const std::vector<unsigned>& w)
{
    Subject<Val> s(sn);
    const Val&   c = s.v;
    walk(cx, s, s.v.begin(), s.v.end(), false, w);
    walk(cx, s, c.begin(), c.end(), false, w);
    walk(cx, s, s.v.rbegin(), s.v.rend(), true, w);
    walk(cx, s, c.rbegin(), c.rend(), true, w);
    if (cx.verbose)
        cx.note(s.name + ": " + std::to_string(w.size()) + " moves by four kinds of iterators");
}
// every position to every position, by each way of adding or subtracting an offset of either sign
template <class Val, class It>
void jumps(mc::Ctx& cx, Subject<Val>& s, It b, It e, bool rev)
{
    auto at = [&](long p)
    {
        It it = b;
        for (long k = 0; k < p; ++k)
            ++it;
        return it;
    };
    const long n = s.null ? 0 : s.n;
    for (long p = 0; p <= n; ++p)
        for (long q = 0; q <= n; ++q)
        {
            const long d    = q - p;
            auto       move = [&](const char* how, auto&& f)
            {
                It   it  = at(p);
                auto err = attempt([&] { f(it); });
                std::string w = " " + std::string(how) + " " + std::to_string(d) + " from " + std::to_string(p);
                if (s.obj)
                {
                    if (err != invalid_iterator)
                        cx.fail("an offset over an object:" + w + " ended with " + name(err));
                    at_position(cx, s, it, b, e, p, rev, w + " (refused)");
                }
                else
                {
                    if (err)
                        cx.fail("moving" + w + " over " + s.name + " ended with " + name(err));
                    at_position(cx, s, it, b, e, q, rev, w);
                }
                cx.transition();
            };
            auto self = [&](const It& it, const It& r)
            {
                if (static_cast<const void*>(&it) != static_cast<const void*>(&r))
                    cx.fail("a compound assignment does not return the iterator");
            };
            move("+=", [&](It& it) { self(it, static_cast<const It&>(it += d)); });
            move("-=", [&](It& it) { self(it, static_cast<const It&>(it -= -d)); });
            move("+", [&](It& it) { auto x = it + d; at_position(cx, s, it, b, e, p, rev, " offset"); it += d; if (!(x == it)) cx.fail("it + d and it += d differ over " + s.name); });
            move("-", [&](It& it) { auto x = it - (-d); at_position(cx, s, it, b, e, p, rev, " offset"); it -= -d; if (!(x == it)) cx.fail("it - d and it -= d differ over " + s.name); });
        }
    cx.trace();
}
template <class Val>
void whole(mc::Ctx& cx, unsigned sn, bool nested)
{
    Subject<Val> s(sn, nested);
    const Val&   c = s.v;
    long         p = 0;
    for (auto& x : s.v)
        if (p >= s.n || &x != s.el[static_cast<size_t>(p++)])
            cx.fail("a range for over " + s.name + " visits a wrong element");
    if (p != s.n)
        cx.fail("a range for over " + s.name + " visits " + std::to_string(p) + " elements");
    p = 0;
    for (auto& x : c)
        if (p >= s.n || &x != s.el[static_cast<size_t>(p++)])
            cx.fail("a range for over const " + s.name + " visits a wrong element");
    if (p != s.n)
        cx.fail("a range for over const " + s.name + " visits " + std::to_string(p) + " elements");
    p = 0;
    for (auto it = s.v.begin(); it != s.v.end(); ++it, ++p)
        key_value(cx, s, it, p, false);
    p = 0;
    for (auto it = c.cbegin(); it != c.cend(); it++, ++p)
        key_value(cx, s, it, p, false);
    p = 0;
    for (auto it = s.v.rbegin(); it != s.v.rend(); ++it, ++p)
        key_value(cx, s, it, p, true);
    if (p != s.n)
        cx.fail("reverse iteration over " + s.name + " visits " + std::to_string(p) + " elements");
    p = 0;
    for (auto it = c.crbegin(); it != c.crend(); it++, ++p)
        key_value(cx, s, it, p, true);
    if (p != s.n)
        cx.fail("const reverse iteration over " + s.name + " visits " + std::to_string(p) + " elements");
    cx.eval();
    if (std::distance(s.v.begin(), s.v.end()) != s.n || std::distance(c.begin(), c.end()) != s.n || std::distance(s.v.rbegin(), s.v.rend()) != s.n)
        cx.fail("std::distance over " + s.name);
    // conversion of an iterator to a const iterator and back to the same position
    p = 0;
    for (auto it = s.v.begin(); it != s.v.end(); ++it, ++p)
    {
        typename Val::const_iterator ci = it;
        typename Val::const_iterator cj = c.begin();
        cj                              = it;
        if (&*ci != s.el[static_cast<size_t>(p)] || ci != cj || std::distance(c.begin(), ci) != p)
            cx.fail("a converted iterator over " + s.name + " has another position");
    }
    // standard algorithms
    if (std::count_if(s.v.begin(), s.v.end(), [](const Val&) { return true; }) != s.n)
        cx.fail("std::count_if over " + s.name);
    for (long k = 0; k < s.n; ++k)
    {
        Val* w  = s.el[static_cast<size_t>(k)];
        auto it = std::find_if(s.v.begin(), s.v.end(), [&](const Val& x) { return &x == w; });
        if (std::distance(s.v.begin(), it) != k || &*std::prev(s.v.end(), s.n - k) != w || &*std::next(c.begin(), k) != w)
            cx.fail("std::find_if, prev or next over " + s.name);
        // base() of the reverse iterator is one further
        auto r = s.v.rbegin();
        std::advance(r, k);
        if (std::distance(s.v.begin(), r.base()) != s.n - k)
            cx.fail("base() of a reverse iterator over " + s.name);
    }
    // change through iterators
    if (s.arr || s.obj)
    {
        for (auto it = s.v.begin(); it != s.v.end(); ++it)
            *it = std::distance(s.v.begin(), it);
        for (auto it = s.v.rbegin(); it != s.v.rend(); ++it)
            it.value().template get<int64_t&>() *= 3;
        for (long k = 0; k < s.n; ++k)
            if (s.el[static_cast<size_t>(k)]->template get<long>() != 3 * k)
                cx.fail("writing through iterators over " + s.name);
    }
    if (s.arr)
    {
        std::reverse(s.v.begin(), s.v.end());
        for (long k = 0; k < s.n; ++k)
            if (s.el[static_cast<size_t>(k)]->template get<long>() != 3 * (s.n - 1 - k))
                cx.fail("std::reverse over " + s.name);
    }
    cx.state(mc::mix(sn * 2 + nested + sizeof(typename Val::char_type) * 100));
    cx.note(s.name + " visited by range for, four kinds of iterators and algorithms");
}
template <class Val>
void misuse(mc::Ctx& cx, unsigned sn, unsigned tn)
{
    Subject<Val> s(sn), t(tn);
    const Val &  c = s.v;
    auto         need = [&](const char* what, Err got, Err want, Err alt = none)
    {
        cx.eval();
        if (got != want && (alt == none || got != alt))
            cx.fail(std::string(what) + " over " + s.name + " ended with " + name(got) + ", it must throw " + name(want));
    };
    need("dereferencing end", attempt([&] { (void)*s.v.end(); }), out_of_range);
    need("dereferencing const end", attempt([&] { (void)*c.end(); }), out_of_range);
    need("value() of end", attempt([&] { (void)s.v.end().value(); }), out_of_range);
    need("-> of end", attempt([&] { (void)s.v.end()->size(); }), out_of_range);
    need("key() of end", attempt([&] { (void)s.v.end().key(); }), s.obj ? out_of_range : invalid_iterator, s.obj ? none : out_of_range);
    if (s.n)
    {
        auto it = s.v.begin();
        std::advance(it, s.n);
        need("dereferencing the past-the-last position", attempt([&] { (void)*it; }), out_of_range);
        if (!s.obj)
            need("key() of a non-object", attempt([&] { (void)s.v.begin().key(); }), invalid_iterator);
    }
    if (s.obj)
    {
        need("it + 1", attempt([&] { (void)(s.v.begin() + 1); }), invalid_iterator);
        need("it += 0", attempt([&] { auto i = s.v.begin(); i += 0; }), invalid_iterator);
        need("it - 1", attempt([&] { (void)(s.v.end() - 1); }), invalid_iterator);
        need("it < it", attempt([&] { (void)(s.v.begin() < s.v.end()); }), invalid_iterator);
        need("it >= it", attempt([&] { (void)(c.begin() >= c.end()); }), invalid_iterator);
        need("it - it", attempt([&] { (void)(s.v.end() - s.v.begin()); }), invalid_iterator);
    }
    else if (!s.arr)
        need("it - it", attempt([&] { (void)(s.v.end() - s.v.begin()); }), invalid_iterator);
    need("comparing iterators of different values", attempt([&] { (void)(s.v.begin() < t.v.begin()); }), invalid_iterator);
    need("comparing iterators of different values", attempt([&] { (void)(s.v.begin() <= t.v.end()); }), invalid_iterator);
    need("comparing iterators of different values", attempt([&] { (void)(t.v.begin() > s.v.begin()); }), invalid_iterator);
    need("subtracting iterators of different values", attempt([&] { (void)(s.v.begin() - t.v.begin()); }), invalid_iterator);
    if (s.v.begin() == t.v.begin() || !(s.v.begin() != t.v.begin()) || s.v.end() == t.v.end())
        cx.fail("iterators of different values compare equal");
    cx.state(mc::mix(sn * 100 + tn + 7));
    cx.note(s.name + " and " + t.name + ": misuse is refused");
}
template <class Val>
void erasures(mc::Ctx& cx, unsigned sn, bool constant)
{
    for (long b = 0; b <= max_size; ++b)
        for (long e = b; e <= static_cast<long>(max_size) + 1; ++e)
        {
            bool         single = e == static_cast<long>(max_size) + 1;
            Subject<Val> s(sn);
            if (!s.arr && !s.obj)
            {
                auto x = attempt([&] { s.v.erase(s.v.begin()); });
                auto y = attempt([&] { s.v.erase(s.v.cbegin(), s.v.cend()); });
                if (x != invalid_iterator || y != invalid_iterator)
                    cx.fail("erase on " + s.name + " ended with " + name(x) + " and " + name(y));
                Subject<Val> t(sn);
                if (!(s.v == t.v))
                    cx.fail("a refused erase changed " + s.name);
                continue;
            }
            long last = single ? b + 1 : e;
            if (last > s.n)
                continue;
            std::vector<int64_t>                    left;
            std::vector<typename Val::string_type> lk;
            for (long k = 0; k < s.n; ++k)
                if (k < b || k >= last)
                {
                    left.push_back(s.el[static_cast<size_t>(k)]->template get<int64_t>());
                    if (s.obj)
                        lk.push_back(s.keys[static_cast<size_t>(k)]);
                }
            long pos;
            auto run = [&](auto first, auto stop)
            {
                auto i = std::next(first, b);
                auto r = single ? s.v.erase(i) : s.v.erase(i, std::next(first, last));
                pos    = 0;
                for (decltype(r) k = s.v.begin(); k != r; ++k)
                    ++pos;
                (void)stop;
            };
            if (constant)
                run(s.v.cbegin(), s.v.cend());
            else
                run(s.v.begin(), s.v.end());
            auto old = s.name;
            s.relink();
            cx.eval();
            cx.transition();
            if (pos != b)
                cx.fail("erasing " + std::to_string(b) + ".." + std::to_string(last) + " of " + old + " returned position " + std::to_string(pos));
            if (s.n != static_cast<long>(left.size()) || s.v.size() != left.size())
                cx.fail("erasing " + std::to_string(b) + ".." + std::to_string(last) + " of " + old + " left " + std::to_string(s.n) + " elements");
            for (size_t k = 0; k < left.size(); ++k)
                if (s.el[k]->template get<int64_t>() != left[k] || (s.obj && s.keys[k] != lk[k]))
                    cx.fail("erasing " + std::to_string(b) + ".." + std::to_string(last) + " of " + old + " removed other elements");
            cx.state(mc::mix(sn * 1000 + b * 50 + last * 5 + constant));
        }
    cx.trace();
}
template <class Val>
void finding(mc::Ctx& cx, unsigned sn)
{
    Subject<Val> s(sn);
    const Val&   c = s.v;
    for (auto k : { "", "A", "a", "b", "ba", "bb", "c", "z", "zz" })
    {
        auto key  = Subject<Val>::str(k);
        long want = s.n;
        for (size_t i = 0; i < s.keys.size(); ++i)
            if (s.keys[i] == key)
                want = static_cast<long>(i);
        cx.eval();
        auto it = s.v.find(key);
        auto ci = c.find(key);
        if (!s.obj)
        {
            if (it != s.v.end() || ci != c.end() || s.v.count(key))
                cx.fail("find on " + s.name + " does not return end");
            continue;
        }
        if (std::distance(s.v.begin(), it) != want || std::distance(c.begin(), ci) != want || (want < s.n) != (s.v.count(key) == 1))
            cx.fail("find of " + mc::show(k) + " on " + s.name + " is wrong");
        if (want < s.n && (it.key() != key || &it.value() != s.el[static_cast<size_t>(want)] || &*ci != s.el[static_cast<size_t>(want)]))
            cx.fail("find of " + mc::show(k) + " on " + s.name + " returns another member");
        if (want < s.n)
        {
            auto nx = it;
            ++nx;
            at_position(cx, s, nx, s.v.begin(), s.v.end(), want + 1, false, " found and advanced");
        }
        cx.state(mc::mix(sn * 64 + mc::hash(k)));
    }
}

int main(int argc, char** argv)
{
    mc::Check ck;
    ck.id     = "C12";
    ck.part   = "main";
    ck.mem_mb = 0;
    bool th   = mc::is_thorough(argc, argv);
    ck.rule   = "all sequences of iterator moves within the range, for every kind of value and size up to 6 and every kind of iterator, on the real iterators with all comparisons after each move; a state is a "
                "distinct (value, iterator kind, position)";
    ck.assumptions = { "moving an iterator outside [begin, end] is outside the property, as for standard iterators", "the model is a position 0..n; every explored transition is executed on the implementation" };
    static const unsigned L = th ? 6 : 5;
    ck.add("walks", subjects * mc::ipow(moves, L), "all sequences of " + std::to_string(L) + " of 10 moves from begin, over 20 values, 4 kinds of iterators",
           [](mc::Ctx& cx, uint64_t i)
           {
               unsigned s = static_cast<unsigned>(i % subjects);
               i /= subjects;
               std::vector<unsigned> w;
               for (unsigned k = 0; k < L; ++k, i /= moves)
                   w.push_back(static_cast<unsigned>(i % moves));
               // the walk stops at a move out of the range: skip words that differ only after it
               long p = 0, n = s == 0 ? 0 : s < scalars ? 1 : s < scalars + max_size + 1 ? s - scalars : s - scalars - max_size - 1;
               for (unsigned k = 0; k < L; ++k)
               {
                   bool refused = s >= scalars + max_size + 1 && w[k] >= 4;
                   long q = s == 0 ? 0 : p + delta(w[k]);
                   if (q < 0 || q > n)
                   {
                       for (unsigned j = k + 1; j < L; ++j)
                           if (w[j])
                               return;
                       break;
                   }
                   if (!refused)
                       p = q;
               }
               four<json::value>(cx, s, w);
               if (i % 3 == 0 || w[0] == 0)
                   four<wjson::value>(cx, s, w);
           });
    // walks from the far end
    ck.add("back walks", subjects * mc::ipow(moves, 3), "advance to every position by ++, then all sequences of 3 moves",
           [](mc::Ctx& cx, uint64_t i)
           {
               unsigned s = static_cast<unsigned>(i % subjects);
               i /= subjects;
               for (unsigned lead = 0; lead <= max_size; ++lead)
               {
                   std::vector<unsigned> w(lead, 0);
                   uint64_t              j = i;
                   for (unsigned k = 0; k < 3; ++k, j /= moves)
                       w.push_back(static_cast<unsigned>(j % moves));
                   four<json::value>(cx, s, w);
               }
           });
    ck.add("jumps", subjects, "from every position to every position by += -= + and - of offsets of either sign, by 4 kinds of iterators", [](mc::Ctx& cx, uint64_t i)
           {
               auto all = [&](auto& sub)
               {
                   const auto& c = sub.v;
                   jumps(cx, sub, sub.v.begin(), sub.v.end(), false);
                   jumps(cx, sub, c.begin(), c.end(), false);
                   jumps(cx, sub, sub.v.rbegin(), sub.v.rend(), true);
                   jumps(cx, sub, c.rbegin(), c.rend(), true);
               };
               Subject<json::value>  s(static_cast<unsigned>(i));
               Subject<wjson::value> w(static_cast<unsigned>(i));
               all(s);
               all(w);
           });
    ck.add("whole", subjects * 2, "range for, iterators with key and value, algorithms, over every value", [](mc::Ctx& cx, uint64_t i)
           {
               whole<json::value>(cx, static_cast<unsigned>(i / 2), false);
               whole<wjson::value>(cx, static_cast<unsigned>(i / 2), false);
               if (i % 2)
                   whole<json::value>(cx, static_cast<unsigned>(i / 2), true);
           });
    ck.add("misuse", subjects * subjects, "every pair of values: end, key, offsets, comparison across values", [](mc::Ctx& cx, uint64_t i)
           {
               misuse<json::value>(cx, static_cast<unsigned>(i / subjects), static_cast<unsigned>(i % subjects));
               misuse<wjson::value>(cx, static_cast<unsigned>(i / subjects), static_cast<unsigned>(i % subjects));
           });
    ck.add("erase", subjects * 2, "every element and every range of every value erased, by iterators and const iterators", [](mc::Ctx& cx, uint64_t i)
           {
               erasures<json::value>(cx, static_cast<unsigned>(i / 2), i % 2);
               erasures<wjson::value>(cx, static_cast<unsigned>(i / 2), i % 2);
           });
    ck.add("find", subjects, "nine keys looked up in every value", [](mc::Ctx& cx, uint64_t i)
           {
               finding<json::value>(cx, static_cast<unsigned>(i));
               finding<wjson::value>(cx, static_cast<unsigned>(i));
           });
    // iterators as the standard algorithms use them, writing through them included
    static const unsigned AL = th ? 6 : 5;
    ck.add("algorithms", mc::words_upto(4, AL) * 2, "every array of up to " + std::to_string(AL) + " of 4 values under 12 standard algorithms, forward and reverse", [](mc::Ctx& cx, uint64_t i)
           {
               std::vector<int> m;
               for (auto k : mc::word(4, i / 2))
                   m.push_back(static_cast<int>(k));
               json::value a(configor::value_constant::array);
               for (int x : m)
                   a.push_back(json::value(x));
               const json::value& ca  = a;
               auto               run = [&](auto first, auto last, auto cfirst, auto clast, std::vector<int> v, bool back)
               {
                   if (back)
                       std::reverse(v.begin(), v.end());
                   auto is = [&](const char* what, bool ok)
                   {
                       cx.eval();
                       cx.transition();
                       if (!ok)
                           cx.fail(std::string(what) + " over " + json::dump(a) + (back ? " in reverse" : ""));
                   };
                   auto same = [&](const char* what)
                   {
                       std::vector<int> got;
                       for (auto it = first; it != last; ++it)
                           got.push_back((*it).template get<int>());
                       is(what, got == v);
                   };
                   same("reading");
                   auto num = [](const json::value& x) { return x.get<int>(); };
                   is("distance", std::distance(cfirst, clast) == static_cast<long>(v.size()));
                   is("count", std::count_if(cfirst, clast, [&](const json::value& x) { return num(x) == 1; }) == std::count(v.begin(), v.end(), 1));
                   auto f  = std::find(cfirst, clast, json::value(2));
                   auto vf = std::find(v.begin(), v.end(), 2);
                   is("find", (f == clast) == (vf == v.end()) && std::distance(cfirst, f) == vf - v.begin());
                   is("accumulate", std::accumulate(cfirst, clast, 0, [&](int s, const json::value& x) { return s * 5 + num(x); }) == std::accumulate(v.begin(), v.end(), 0, [](int s, int x) { return s * 5 + x; }));
                   auto mx = std::max_element(cfirst, clast);
                   is("max_element", std::distance(cfirst, mx) == std::max_element(v.begin(), v.end()) - v.begin());
                   is("adjacent_find", std::distance(cfirst, std::adjacent_find(cfirst, clast)) == std::adjacent_find(v.begin(), v.end()) - v.begin());
                   std::reverse(first, last);
                   std::reverse(v.begin(), v.end());
                   same("reverse");
                   auto half = [](auto b, size_t n) { std::advance(b, static_cast<long>(n)); return b; };
                   std::rotate(first, half(first, v.size() / 2), last);
                   std::rotate(v.begin(), v.begin() + static_cast<long>(v.size() / 2), v.end());
                   same("rotate");
                   auto p  = std::partition(first, last, [&](const json::value& x) { return num(x) < 2; });
                   auto n  = std::count_if(v.begin(), v.end(), [](int x) { return x < 2; });
                   is("partition", std::distance(first, p) == n && std::all_of(first, p, [&](const json::value& x) { return num(x) < 2; }));
                   size_t k = 0;
                   for (auto it = first; it != last; ++it)
                       *it = v[k++];
                   same("writing through iterators");
                   std::transform(first, last, first, [&](const json::value& x) { return json::value(num(x) + 1); });
                   for (int& x : v)
                       ++x;
                   same("transform");
                   std::vector<json::value> out(first, last);
                   is("copying out", out.size() == v.size() && std::equal(out.begin(), out.end(), v.begin(), [&](const json::value& x, int y) { return num(x) == y; }));
                   auto e  = std::remove_if(first, last, [&](const json::value& x) { return num(x) == 2; });
                   auto ve = std::remove(v.begin(), v.end(), 2);
                   v.erase(ve, v.end());
                   is("remove_if", std::distance(first, e) == static_cast<long>(v.size()) && std::equal(v.begin(), v.end(), first, [&](int y, const json::value& x) { return num(x) == y; }));
                   std::fill(first, last, json::value(7));
                   v.assign(m.size(), 7);
                   same("fill");
                   cx.outcome(mc::hash(m.data(), m.size() * sizeof(int)));
               };
               if (i % 2)
                   run(a.rbegin(), a.rend(), ca.rbegin(), ca.rend(), m, true);
               else
               {
                   run(a.begin(), a.end(), ca.begin(), ca.end(), m, false);
                   json::value b(configor::value_constant::array);
                   for (int x : m)
                       b.push_back(json::value(x));
                   b.erase(std::remove_if(b.begin(), b.end(), [](const json::value& x) { return x.get<int>() == 1; }), b.end());
                   m.erase(std::remove(m.begin(), m.end(), 1), m.end());
                   cx.eval();
                   if (b.get<std::vector<int>>() != m)
                       cx.fail("erase of what remove_if leaves gave " + json::dump(b));
               }
           });
    ck.add("empty iterators", 13, "13 uses of an iterator over nothing: each is refused", [](mc::Ctx& cx, uint64_t i)
           {
               auto go = [&](auto it, auto none)
               {
                   cx.eval();
                   try
                   {
                       switch (i)
                       {
                       case 0: (void)*it; break;
                       case 1: (void)it->is_null(); break;
                       case 2: (void)it.key(); break;
                       case 3: (void)it.value().is_null(); break;
                       case 4: ++it; break;
                       case 5: --it; break;
                       case 6: it++; break;
                       case 7: it--; break;
                       case 8: it += 1; break;
                       case 9: it -= 1; break;
                       case 10: (void)(it - none); break;
                       case 11: (void)(it < none); break;
                       case 12: (void)(it >= none); break;
                       }
                   }
                   catch (const configor::configor_invalid_iterator&)
                   {
                       return;
                   }
                   cx.fail("use " + std::to_string(i) + " of an iterator over nothing is not refused");
               };
               go(json::value::iterator(nullptr), json::value::iterator(nullptr));
               go(json::value::const_iterator(nullptr), json::value::const_iterator(nullptr));
               go(wjson::value::iterator(nullptr), wjson::value::iterator(nullptr));
           });
    static const unsigned N = th ? 2000 : 500;
    ck.add("sizes", N + mc::big_sizes, "arrays and objects of every size below " + std::to_string(N) + " and of 12 sizes up to 131073: full traversals in all directions", [](mc::Ctx& cx, uint64_t i)
           {
               json::value a(configor::value_constant::array), o(configor::value_constant::object);
               long        n = static_cast<long>(mc::size_at(i, N));
               for (long k = 0; k < n; ++k)
               {
                   a.push_back(k);
                   char b[16];
                   std::snprintf(b, sizeof b, "%07ld", k * 7919 % 1000003);
                   o[b] = k * 7919 % 1000003;
               }
               long p = 0;
               for (auto it = a.begin(); it != a.end(); ++it, ++p)
                   if (it->get<long>() != p || it - a.begin() != p)
                       cx.fail("forward iteration over an array of " + std::to_string(n));
               long q = p;
               for (auto it = a.rbegin(); it != a.rend(); ++it)
                   if (it->get<long>() != --p)
                       cx.fail("reverse iteration over an array of " + std::to_string(n));
               long last = -1, cnt = 0;
               for (auto it = o.begin(); it != o.end(); ++it, ++cnt)
               {
                   if (it.value().get<long>() <= last || std::stol(it.key()) != it.value().get<long>())
                       cx.fail("forward iteration over an object of " + std::to_string(n));
                   last = it.value().get<long>();
               }
               last = 1 << 30;
               for (auto it = o.rbegin(); it != o.rend(); ++it, --cnt)
               {
                   if (it.value().get<long>() >= last || std::stol(it.key()) != it.value().get<long>())
                       cx.fail("reverse iteration over an object of " + std::to_string(n));
                   last = it.value().get<long>();
               }
               if (q != n || p != 0 || cnt != 0)
                   cx.fail("iteration over " + std::to_string(n) + " elements visits another number");
               cx.eval();
               cx.state(i + 1000000);
               if (n)
               {
                   if (&*(a.begin() + (n - 1)) != &a[size_t(n - 1)] || (a.end() - n) != a.begin() || &*(a.end() - 1) != &a[size_t(n - 1)])
                       cx.fail("offsets over an array of " + std::to_string(n));
                   auto it = a.begin() + n / 2;
                   auto r  = a.erase(it, a.end());
                   if (r != a.end() || a.size() != size_t(n / 2))
                       cx.fail("erasing the second half of an array of " + std::to_string(n));
                   auto ro = o.erase(o.begin(), std::next(o.begin(), n / 2));
                   if (ro != o.begin() || o.size() != size_t(n - n / 2))
                       cx.fail("erasing the first half of an object of " + std::to_string(n));
               }
           });
    // erasing from large containers: what stays is exactly the rest, in order
    static const unsigned EN = th ? 700 : 260;
    ck.add("large erasures", (EN + mc::big_sizes) * 2, "arrays and objects of every size below " + std::to_string(EN) + " and of 12 sizes up to 131073: one element or a range (12 places x 12 lengths) erased by iterators, the rest compared element by element",
           [](mc::Ctx& cx, uint64_t i)
           {
               const bool         obj = i % 2;
               const size_t       n   = mc::size_at(i / 2, EN);
               if (obj && n > 20000)
                   return;
               const json::value full = [&]
               {
                   json::value v(obj ? configor::value_constant::object : configor::value_constant::array);
                   for (size_t k = 0; k < n; ++k)
                   {
                       char b[16];
                       std::snprintf(b, sizeof b, "%07zu", k);
                       if (obj)
                           v[b] = static_cast<long>(k);
                       else
                           v.push_back(static_cast<long>(k));
                   }
                   return v;
               }();
               std::set<size_t> at, len;
               for (size_t a : { size_t(0), size_t(1), size_t(3), n / 3, n / 2, n / 2 + 1, n - 4, n - 3, n - 2, n - 1, n, size_t(64) })
                   if (a <= n)
                       at.insert(a);
               for (size_t l : { size_t(0), size_t(1), size_t(2), size_t(3), n / 4, n / 2, n - 2, n - 1, n, size_t(33), size_t(64), size_t(65) })
                   if (l <= n)
                       len.insert(l);
               for (size_t a : at)
                   for (size_t l : len)
                   {
                       if (a + l > n || (n > 5000 && (a % 2 || l % 2)))
                           continue;
                       for (bool single : { false, true })
                       {
                           if (single && l != 1)
                               continue;
                           json::value v    = full;
                           auto        from = std::next(v.begin(), static_cast<long>(a));
                           auto        r    = single ? v.erase(from) : v.erase(from, std::next(from, static_cast<long>(l)));
                           std::string what = std::string(single ? "erasing element " : "erasing a range from ") + std::to_string(a) + " of length " + std::to_string(l) + " from " + (obj ? "an object" : "an array") + " of " + std::to_string(n);
                           cx.eval();
                           cx.transition();
                           size_t k = 0, seen = 0;
                           bool   hit = false;
                           for (auto it = v.begin(); it != v.end(); ++it, ++k)
                           {
                               if (k == a)
                                   k += l;
                               if (it == r)
                               {
                                   hit = true;
                                   if (seen != a)
                                       cx.fail(what + " returned the place " + std::to_string(seen));
                               }
                               if (it.value().get<long>() != static_cast<long>(k))
                                   cx.fail(what + " left element " + std::to_string(seen) + " as " + std::to_string(it.value().get<long>()) + ", not " + std::to_string(k));
                               if (obj && std::stol(it.key()) != static_cast<long>(k))
                                   cx.fail(what + " left a key with the value of another");
                               ++seen;
                           }
                           if (seen != n - l || v.size() != n - l || (!hit && r != v.end()) || (!hit && a != n - l))
                               cx.fail(what + " left " + std::to_string(seen) + " elements or returned another place");
                       }
                   }
               cx.state(i + 3000000);
           });
    return mc::run(ck, argc, argv);
}
