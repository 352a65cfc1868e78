// C10: a value behaves like its reference container under any operation sequence.
#include "seq.hpp"
#include "makers.hpp"
using namespace seq;

static std::vector<V> leaves() { return { V(), V::boolean(true), V::integer(7), V::floating(2.5), V::string(U"s"), V::array(), V::object() }; }

int main(int argc, char** argv)
{
    mc::Check ck;
    ck.id     = "C10";
    ck.part   = "main";
    ck.mem_mb = 0;
    bool th   = mc::is_thorough(argc, argv);
    ck.rule   = "breadth-first enumeration of the model's states; every operation from every state, and every operation sequence over smaller alphabets, executed on the real values under "
                "AddressSanitizer and compared with the model; a state is a distinct content of the variables";
    ck.assumptions = { "the model is the sequence / sorted map described in the property; it is bound to the code by replaying every explored transition" };

    static Explorer ex;
    {
        auto& o = ex.ops;
        auto  A = at(0), B = at(1);
        for (auto& p : { A, at(0, 0), at(0, 2), at(0, "k"), at(0, "m") })
            for (auto& l : leaves())
                if (p.path.empty() || (l.k != ref::Bool && l.k != ref::Float))
                    o.push_back(opc(AssignConst, p, l));
        for (auto& p : { A, at(0, 0), at(0, "k") })
        {
            o.push_back(opc(PushConst, p, V::integer(7)));
            o.push_back(opc(PushConst, p, V()));
            o.push_back(op(Clear, p));
            o.push_back(op(Touch, p));
            o.push_back(opi(EraseIdx, p, 0));
            o.push_back(opk(EraseKey, p, "k"));
            o.push_back(opi(EraseIt, p, 0));
            o.push_back(opi(EraseRange, p, 0, 99));
        }
        for (auto& l : leaves())
            o.push_back(opc(Emplace, A, l));
        o.push_back(opi(EraseIdx, A, 1));
        o.push_back(opi(EraseIdx, A, 5));
        o.push_back(opk(EraseKey, A, "z"));
        o.push_back(opi(EraseIt, A, 1));
        o.push_back(opi(EraseCIt, A, 0));
        o.push_back(opi(EraseRange, A, 0, 0));
        o.push_back(opi(EraseRange, A, 0, 1));
        o.push_back(opi(EraseRange, A, 1, 2));
        o.push_back(opi(EraseRange, A, 1, 99));
        for (int i : { 0, 1, 3 })
        {
            o.push_back(opi(At, A, i));
            o.push_back(opi(CAt, A, i));
        }
        for (auto k : { "k", "m", "z" })
            for (bool c : { false, true })
            {
                o.push_back(opk(AtKey, A, k, c));
                o.push_back(opk(CAtKey, A, k, c));
            }
        for (auto k : { "k", "z" })
        {
            o.push_back(opk(Find, A, k));
            o.push_back(opk(Count, A, k));
        }
        o.push_back(op(Copy, A, B));
        o.push_back(op(Copy, B, A));
        o.push_back(op(Copy, A, A));
        o.push_back(op(Move, A, B));
        o.push_back(op(Move, B, A));
        o.push_back(op(Swap, A, B));
        o.push_back(op(Copy, at(0, 0), B));
        o.push_back(op(Copy, at(0, "k"), B));
        o.push_back(op(Push, A, B));
        o.push_back(op(PushMove, A, B));
        ex.vars = 2;
        ex.enumerate(th ? 5 : 4, 600000);
    }
    ck.add("states", ex.nodes.size(), "every state reachable by " + std::to_string(th ? 5 : 4) + " of " + std::to_string(ex.ops.size()) + " operations on two variables, and every operation from it",
           [](mc::Ctx& cx, uint64_t i) { ex.from_node(cx, i); });

    // one array, all sequences of element operations
    static Explorer arr;
    {
        auto& o = arr.ops;
        auto  A = at(0);
        o       = { opc(PushConst, A, V::string(U"a string that is longer than the small buffer")), opc(PushConst, A, V::integer(1)), opi(EraseIdx, A, 0), opi(EraseIt, A, 1), opc(AssignConst, at(0, 3), V::integer(2)), op(Clear, A),
                    op(Push, A, at(0, 0)), op(PushMove, A, at(0, 1)), op(Push, A, A), opi(EraseRange, A, 1, 3) };
        arr.vars = 1;
    }
    static const unsigned AL = th ? 7 : 5;
    ck.add("array sequences", mc::ipow(arr.ops.size(), AL), "all sequences of " + std::to_string(AL) + " of 10 operations on an array", [](mc::Ctx& cx, uint64_t i)
           {
               std::vector<uint32_t> p;
               for (unsigned k = 0; k < AL; ++k, i /= 10)
                   p.push_back(static_cast<uint32_t>(i % 10));
               // a.push_back(a) doubles: keep it to four in a sequence
               if (std::count(p.begin(), p.end(), 8u) > 4)
                   return;
               arr.sequence(cx, p);
           });
    static Explorer obj;
    {
        auto& o = obj.ops;
        auto  A = at(0);
        o       = { opc(AssignConst, at(0, "k"), V::string(U"a string that is longer than the small buffer")), opc(AssignConst, at(0, "a"), V::integer(1)), opc(AssignConst, at(at(0, "m"), "x"), V::integer(2)), opk(EraseKey, A, "k"),
                    opi(EraseIt, A, 0), op(Clear, A), op(Copy, at(0, "m"), A), op(Move, at(0, "a"), at(0, "k")), opi(EraseRange, A, 1, 2), opk(Find, A, "m") };
        obj.vars = 1;
    }
    ck.add("object sequences", mc::ipow(obj.ops.size(), AL), "all sequences of " + std::to_string(AL) + " of 10 operations on an object", [](mc::Ctx& cx, uint64_t i)
           {
               std::vector<uint32_t> p;
               for (unsigned k = 0; k < AL; ++k, i /= 10)
                   p.push_back(static_cast<uint32_t>(i % 10));
               if (std::count(p.begin(), p.end(), 6u) > 3)
                   return;
               obj.sequence(cx, p);
           });
    // unusual keys: empty, prefixes of one another, inner NULs, bytes above 127, longer than the small buffer
    static const std::vector<std::string> KEYS = { "", "a", std::string("a\0", 2), std::string("a\0b", 3), "ab", "\xff", "\xc3\xa9", std::string(1, '\0'), "A", " ", std::string(40, 'k'), std::string(40, 'k') + "2" };
    ck.add("keys", (uint64_t(1) << KEYS.size()) * 2, "every subset of 12 unusual keys inserted in two orders, every key looked up, counted, indexed, found and erased in every form",
           [](mc::Ctx& cx, uint64_t i)
           {
               const bool                 rev = i & 1;
               const uint64_t             set = i >> 1;
               json::value                v(configor::value_constant::object);
               std::map<std::string, int> m;
               for (size_t n = 0; n < KEYS.size(); ++n)
               {
                   size_t k = rev ? KEYS.size() - 1 - n : n;
                   if (set >> k & 1)
                   {
                       v[KEYS[k]] = static_cast<int>(k);
                       m[KEYS[k]] = static_cast<int>(k);
                   }
               }
               auto same = [&](const json::value& x, const char* w)
               {
                   auto it = m.begin();
                   if (x.size() != m.size())
                       cx.fail(std::string(w) + ": " + std::to_string(x.size()) + " members, not " + std::to_string(m.size()));
                   for (auto e = x.begin(); e != x.end(); ++e, ++it)
                       if (e.key() != it->first || e.value().get<int>() != it->second)
                           cx.fail(std::string(w) + ": the members are not the ones inserted in the order of their keys");
                   cx.eval();
                   cx.transition();
               };
               same(v, "after insertion");
               for (size_t k = 0; k < KEYS.size(); ++k)
               {
                   const auto&        key = KEYS[k];
                   const bool         in  = set >> k & 1;
                   const json::value& c   = v;
                   const bool         zs  = key.find('\0') == std::string::npos;
                   auto               is  = [&](int got, const char* w)
                   {
                       if (got != static_cast<int>(k))
                           cx.fail(std::string(w) + " gave another member's value");
                   };
                   if (v.count(key) != (in ? 1u : 0u) || c.count(key) != (in ? 1u : 0u))
                       cx.fail("count");
                   auto f = v.find(key);
                   auto g = c.find(key);
                   if ((f != v.end()) != in || (g != c.end()) != in || (in && (f.key() != key || g.key() != key || f.value().get<int>() != static_cast<int>(k))))
                       cx.fail("find");
                   cx.eval();
                   int  got = static_cast<int>(k);
                   auto e   = attempt([&] { got = v.at(key).get<int>(); });
                   if ((e == 0) != in)
                       cx.fail("at() of a member's key");
                   is(got, "at()");
                   if (in)
                   {
                       is(c.at(key).get<int>(), "const at()");
                       is(c[key].get<int>(), "const []");
                       is(v[key].get<int>(), "[]");
                       if (zs)
                       {
                           is(v[key.c_str()].get<int>(), "[] of a C string");
                           is(v.at(key.c_str()).get<int>(), "at() of a C string");
                           is(c[key.c_str()].get<int>(), "const [] of a C string");
                       }
                   }
                   else if (attempt([&] { (void)c.at(key); }) == 0 || attempt([&] { (void)c[key]; }) == 0)
                       cx.fail("a key that is not there is found by const access");
                   same(v, "after reading");
                   json::value w = v;
                   if (w.erase(key) != (in ? 1u : 0u) || w.count(key) || w.size() != m.size() - (in ? 1 : 0) || w.erase(key) != 0)
                       cx.fail("erase by key");
                   w[key] = static_cast<int>(k);
                   if (w.size() != m.size() + (in ? 0 : 1) || w.count(key) != 1)
                       cx.fail("insertion by []");
                   if (in)
                   {
                       same(w, "after erasing and inserting again");
                       json::value x = v;
                       auto        n = x.erase(x.find(key));
                       auto        u = m.upper_bound(key);
                       if ((n == x.end()) != (u == m.end()) || (u != m.end() && n.key() != u->first))
                           cx.fail("erase of an iterator does not return the next member");
                       if (x.count(key) || x.size() + 1 != m.size())
                           cx.fail("erase of an iterator");
                   }
               }
           });
    ck.add("lists", makers::array_cases<json>() + makers::object_cases<json>(), "arrays of every list of up to 4 of 6 values, objects of every list of up to 3 members of 4 keys, repeated ones included, narrow and wide", [](mc::Ctx& cx, uint64_t i)
           {
               uint64_t n = makers::array_cases<json>();
               if (i < n)
                   makers::array_case<json>(cx, i), makers::array_case<wjson>(cx, i);
               else
                   makers::object_case<json, false>(cx, i - n), makers::object_case<wjson, false>(cx, i - n);
           });
    // indices far beyond what any array can hold
    static const size_t far[] = { SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 2, SIZE_MAX - 3, SIZE_MAX / 2, SIZE_MAX / 2 + 1, SIZE_MAX / 2 + 2, SIZE_MAX / 4, SIZE_MAX / 4 + 1, SIZE_MAX / 8, SIZE_MAX / 16, SIZE_MAX / 16 + 1, SIZE_MAX / 16 + 2 };
    ck.add("far indices", 13 * 9 * 5, "9 values indexed, read and erased at 13 indices that no array can have", [](mc::Ctx& cx, uint64_t i)
           {
               mc::Digits d(i);
               size_t     at = far[d(13)];
               V          ms[] = { V(), V::array(), V::array({ V::integer(1), V::array({ V::integer(2) }) }), V::object(), V::object({ { U"a", V::integer(1) } }), V::string(U"s"), V::integer(1), V::boolean(true), V::floating(0.5) };
               V           m = ms[d(9)];
               json::value v = to<json::value>(m);
               const auto& c = v;
               unsigned    op = static_cast<unsigned>(d(5));
               std::string got = "no error";
               try
               {
                   if (op == 0)
                       v[at] = 1;
                   else if (op == 1)
                       (void)c[at].is_null();
                   else if (op == 2)
                       (void)v.at(at).is_null();
                   else if (op == 3)
                       (void)c.at(at).is_null();
                   else
                       v.erase(at);
               }
               catch (const configor::configor_invalid_key&)
               {
                   got = "invalid key";
               }
               catch (const std::out_of_range&)
               {
                   got = "out of range";
               }
               catch (const std::length_error&)
               {
                   got = "length";
               }
               cx.eval();
               bool arr = m.k == ref::Arr, grows = op == 0 && (arr || m.k == ref::Null);
               if (grows ? got != "out of range" && got != "length" : got != (arr ? "out of range" : "invalid key"))
                   cx.fail("operation " + std::to_string(op) + " at index " + std::to_string(at) + " of " + ref::show(m) + " ended with " + got);
               if (!ref::eq(from(v), m, ref::Cmp()))
                   cx.fail("operation " + std::to_string(op) + " at index " + std::to_string(at) + " failed and changed " + ref::show(m) + " to " + ref::show(from(v)));
               cx.outcome(mc::hash(got));
           });
    static const unsigned N = th ? 2000 : 400;
    ck.add("sizes", (N + mc::big_sizes) * 5, "arrays and objects of every size below " + std::to_string(N) + " and 12 sizes up to 131073 built by indexing, appending and insertion, then cut at every kind of place",
           [](mc::Ctx& cx, uint64_t i)
           {
               size_t      n = mc::size_at(i / 5, N);
               json::value v;
               V           m = i % 5 == 3 ? V() : V();
               auto        cmp = [&](const char* w)
               {
                   std::set<const void*> seen;
                   look(cx, v, m, seen, w);
                   cx.eval();
                   cx.transition();
               };
               if (i % 5 == 0)
               {
                   v[n] = 5;
                   m_idx(m, n) = V::integer(5);
                   cmp("v[n] = 5");
                   if (n)
                   {
                       v[n / 2] = "x";
                       m_idx(m, n / 2) = V::string(U"x");
                       cmp("v[n/2] = x");
                   }
               }
               else if (i % 5 == 1)
               {
                   for (size_t k = 0; k < n; ++k)
                   {
                       v.push_back(json::value(static_cast<int>(k)));
                       m_push(m, V::integer(static_cast<long>(k)));
                   }
                   cmp("n appended");
                   for (size_t k : { n / 2, size_t(0), n > 2 ? n - 3 : 0 })
                       if (k < v.size())
                       {
                           v.erase(k);
                           m.a.erase(m.a.begin() + static_cast<long>(k));
                           cmp("after erase");
                       }
                   for (size_t k : { size_t(1), n / 3, n > 5 ? n - 6 : 0 })
                       if (k + 2 < v.size())
                       {
                           v.erase(v.begin() + static_cast<long>(k));
                           m.a.erase(m.a.begin() + static_cast<long>(k));
                           cmp("after erase of an iterator");
                           v.erase(v.begin() + static_cast<long>(k), v.begin() + static_cast<long>(k + 2));
                           m.a.erase(m.a.begin() + static_cast<long>(k), m.a.begin() + static_cast<long>(k + 2));
                           cmp("after erase of a range");
                       }
                   if (attempt([&] { v.erase(v.size()); }) != (n ? out_of_range : invalid_key))
                       cx.fail("erase(size()) does not report the index");
                   if (n)
                       cmp("after a refused erase");
               }
               else if (i % 5 == 2)
               {
                   if (n > 4200)
                       return;  // the model's objects are searched from the start
                   for (size_t k = 0; k < n; ++k)
                   {
                       auto key = std::to_string(k * 7919 % 10007);
                       v[key]   = static_cast<int>(k);
                       m_key(m, key.c_str()) = V::integer(static_cast<long>(k));
                   }
                   if (n)
                       cmp("n inserted");
                   for (size_t k = 0; k < n; k += 3)
                   {
                       auto key = std::to_string(k * 7919 % 10007);
                       if (v.erase(key) != 1 || v.erase(key) != 0 || v.count(key))
                           cx.fail("erase of a key among " + std::to_string(n));
                       Op e = opk(EraseKey, at(0), key.c_str());
                       MState ms{ std::move(m) };
                       m_apply(ms, e);
                       m = std::move(ms[0]);
                   }
                   if (n)
                       cmp("third erased");
               }
               else if (i % 5 == 3)
               {
                   // growth while holding content: references obtained afresh stay right
                   v = json::value(configor::value_constant::array);
                   m = V::array();
                   for (size_t k = 0; k < n; ++k)
                   {
                       v.emplace_back(std::string(k % 40, 'x'));
                       m_push(m, V::string(ref::U(k % 40, U'x')));
                       if (k % 5 == 4)
                       {
                           v.push_back(v[k / 2]);
                           m_push(m, V(m.a[k / 2]));
                       }
                   }
                   cmp("strings and copies of elements appended");
                   json::value w = v;
                   v.clear();
                   if (!v.empty() || !v.is_array() || w.size() != m.a.size())
                       cx.fail("clear");
               }
               else
               {
                   // deep chains through operator[]
                   size_t       d = n % 300;
                   json::value* p = &v;
                   V*           q = &m;
                   for (size_t k = 0; k < d; ++k)
                   {
                       p = k % 2 ? &(*p)[k % 3] : &(*p)["k"];
                       q = k % 2 ? &m_idx(*q, k % 3) : &m_key(*q, "k");
                   }
                   *p = true;
                   *q = V::boolean(true);
                   cmp("chain");
               }
           }, 300, 4);
    return mc::run(ck, argc, argv);
}
