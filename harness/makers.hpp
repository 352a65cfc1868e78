// Values made from lists: J::array{...}, J::object{...}, make_array, make_object, of every content.
#pragma once
#include "cfg.hpp"
namespace makers
{
using ref::U;
using ref::V;
static const unsigned parts = 6, keys = 4;
inline V part(uint64_t k)
{
    switch (k)
    {
    case 0: return V();
    case 1: return V::integer(-7);
    case 2: return V::string(U"a string that does not fit the small buffer");
    case 3: return V::array({ V::boolean(true), V::array() });
    case 4: return V::object({ { U"k", V::floating(0.5) } });
    default: return V::boolean(false);
    }
}
inline U key(uint64_t k)
{
    static const U ks[] = { U"b", U"a", U"", U"a key that does not fit the small buffer" };
    return ks[k];
}
template <class J>
uint64_t array_cases()
{
    return mc::words_upto(parts, 4);
}
template <class J>
uint64_t object_cases()
{
    return mc::words_upto(parts * keys, 3);
}
template <class J>
void array_case(mc::Ctx& cx, uint64_t i)
{
    using Val = typename J::value;
    using A   = typename J::array;
    std::vector<Val> x;
    V                m = V::array();
    for (auto k : mc::word(parts, i))
    {
        m.a.push_back(part(k));
        x.push_back(cf::to<Val>(part(k)));
    }
    Val a, b;
    a = V().k == ref::Null ? Val(5) : Val();  // whatever was there goes
    switch (x.size())
    {
    case 0: a = A{}; b = configor::make_array<Val>(std::initializer_list<Val>{}); break;
    case 1: a = A{ std::initializer_list<Val>{ x[0] } }; b = configor::make_array<Val>({ x[0] }); break;
    case 2: a = A{ x[0], x[1] }; b = configor::make_array<Val>({ x[0], x[1] }); break;
    case 3: a = A{ x[0], x[1], x[2] }; b = configor::make_array<Val>({ x[0], x[1], x[2] }); break;
    default: a = A{ x[0], x[1], x[2], x[3] }; b = configor::make_array<Val>({ x[0], x[1], x[2], x[3] }); break;
    }
    cx.eval(2);
    if (!ref::eq(cf::from(a), m, ref::Cmp()) || !ref::eq(cf::from(b), m, ref::Cmp()))
        cx.fail("an array made of the list " + ref::show(m) + " is " + ref::show(cf::from(a)) + ", by make_array " + ref::show(cf::from(b)));
    for (size_t k = 0; k < x.size(); ++k)
        if (!ref::eq(cf::from(x[k]), m.a[k], ref::Cmp()))
            cx.fail("making an array changed element " + std::to_string(k) + " of the list");
    cx.outcome(mc::hash(ref::show(m)));
}
template <class J, bool keeps_order>
void object_case(mc::Ctx& cx, uint64_t i)
{
    using Val = typename J::value;
    using O   = typename J::object;
    using S   = typename Val::string_type;
    using P   = std::pair<S, Val>;
    std::vector<P> x;
    V              m = V::object();
    for (auto k : mc::word(parts * keys, i))
    {
        U ky = key(k % keys);
        x.push_back(P(*cf::to<Val>(V::string(ky)).data().string, cf::to<Val>(part(k / keys))));
        bool has = false;
        for (auto& e : m.o)
            has = has || e.first == ky;
        if (!has)
            m.o.emplace_back(ky, part(k / keys));
    }
    if (!keeps_order)
        std::stable_sort(m.o.begin(), m.o.end(), [](const std::pair<U, V>& a, const std::pair<U, V>& b) { return a.first < b.first; });
    Val a, b;
    switch (x.size())
    {
    case 0: a = O(std::initializer_list<P>{}); b = configor::make_object<Val>(std::initializer_list<P>{}); break;
    case 1: a = O{ x[0] }; b = configor::make_object<Val>({ x[0] }); break;
    case 2: a = O{ x[0], x[1] }; b = configor::make_object<Val>({ x[0], x[1] }); break;
    default: a = O{ x[0], x[1], x[2] }; b = configor::make_object<Val>({ x[0], x[1], x[2] }); break;
    }
    ref::Cmp c;
    c.ordered = true;
    cx.eval(2);
    if (!ref::eq(cf::from(a), m, c) || !ref::eq(cf::from(b), m, c))
        cx.fail("an object made of a list is " + ref::show(cf::from(a)) + ", by make_object " + ref::show(cf::from(b)) + " instead of " + ref::show(m));
    cx.outcome(mc::hash(ref::show(m)));
}
}  // namespace makers
