// Unicode encoding forms over any character type, for choosing encodings explicitly.
#pragma once
#include "cfg.hpp"
namespace forms
{
namespace en = configor::encoding;
template <int N>  // 8, 16, 32: the form; 0: chosen by the width of the character type
struct form;
template <>
struct form<8>
{
    template <class C>
    using enc = en::utf8<C>;
};
template <>
struct form<16>
{
    template <class C>
    using enc = en::utf16<C>;
};
template <>
struct form<32>
{
    template <class C>
    using enc = en::utf32<C>;
};
template <>
struct form<0>
{
    template <class C>
    using enc = en::auto_utf<C>;
};
template <class Ch, int N>
constexpr int width()
{
    return N ? N : static_cast<int>(sizeof(Ch)) * 8;
}
template <class Ch>
uint32_t unit(Ch c)
{
    return static_cast<uint32_t>(static_cast<typename std::make_unsigned<Ch>::type>(c));
}
template <class Ch, int N>
std::basic_string<Ch> encode(const ref::U& u)
{
    std::basic_string<Ch> r;
    for (uint32_t c : u)
    {
        if constexpr (width<Ch, N>() == 8)
        {
            std::string t;
            ref::put8(t, c);
            for (unsigned char x : t)
                r.push_back(static_cast<Ch>(x));
        }
        else if constexpr (width<Ch, N>() == 16)
            ref::put16(r, c);
        else
            r.push_back(static_cast<Ch>(c));
    }
    return r;
}
// stops at the first ill-formed character, which is given as ref::bad
template <class Ch, int N>
ref::U decode(const std::basic_string<Ch>& s)
{
    ref::U r;
    size_t p = 0;
    while (p < s.size())
    {
        uint32_t c = ref::bad;
        if constexpr (width<Ch, N>() == 8)
        {
            unsigned char b[4];
            size_t        n = 0;
            for (; n < 4 && p + n < s.size() && unit(s[p + n]) <= 0xFF; ++n)
                b[n] = static_cast<unsigned char>(unit(s[p + n]));
            if (n)
            {
                size_t q = 0;
                c        = ref::get8(b, n, q);
                p += q;
            }
        }
        else if constexpr (width<Ch, N>() == 16)
            c = ref::get16(s.data(), s.size(), p);
        else
            c = ref::get32(s.data(), s.size(), p);
        r.push_back(c);
        if (c == ref::bad)
            break;
    }
    return r;
}
template <class Ch>
bool carried(const std::basic_string<Ch>& s)
{
    using T = std::char_traits<Ch>;
    for (auto u : s)
        if (sizeof(Ch) > 1 && (T::eq_int_type(T::to_int_type(u), T::eof()) || !T::eq(T::to_char_type(T::to_int_type(u)), u)))
            return false;
    return true;
}
// ill-formed and boundary units of a form
template <class Ch, int N>
const std::vector<uint32_t>& edge_units()
{
    static const std::vector<uint32_t> u8  = { 0x41, 0x7f, 0x80, 0x90, 0xa0, 0xbf, 0xc1, 0xc3, 0xe0, 0xe2, 0xed, 0xf0, 0xf1, 0xf4, 0xf5, 0xff };
    static const std::vector<uint32_t> u8w = { 0x41, 0x7f, 0x80, 0x90, 0xa0, 0xbf, 0xc1, 0xc3, 0xe0, 0xe2, 0xed, 0xf0, 0xf1, 0xf4, 0xf5, 0x1c3, 0x122 };
    static const std::vector<uint32_t> u16 = { 0x41, 0xe9, 0xd7ff, 0xd800, 0xd83d, 0xdbff, 0xdc00, 0xde00, 0xdfff, 0xe000, 0xfffd };
    static const std::vector<uint32_t> u16w = { 0x41, 0xe9, 0xd7ff, 0xd800, 0xd83d, 0xdbff, 0xdc00, 0xde00, 0xdfff, 0xe000, 0xfffd, 0x10041, 0x1d800, 0x10022 };
    static const std::vector<uint32_t> u32 = { 0x41, 0xe9, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x1f600, 0x7fffffff, 0x80000041, 0x80000022, 0xfffffffe };
    if (width<Ch, N>() == 8)
        return sizeof(Ch) == 1 ? u8 : u8w;
    if (width<Ch, N>() == 16)
        return sizeof(Ch) == 2 ? u16 : u16w;
    return u32;
}
// a value's content, its strings read in form N; nullptr-like: `bad` marks ill-formed text
template <class Val, int N>
ref::V from(const Val& v)
{
    using Ch = typename Val::char_type;
    switch (v.type())
    {
    case configor::value_constant::string:
        return ref::V::string(decode<Ch, N>(*v.data().string));
    case configor::value_constant::array:
    {
        ref::V r = ref::V::array();
        for (auto& x : *v.data().vector)
            r.a.push_back(from<Val, N>(x));
        return r;
    }
    case configor::value_constant::object:
    {
        ref::V r = ref::V::object();
        for (auto& m : *v.data().object)
            r.o.emplace_back(decode<Ch, N>(m.first), from<Val, N>(m.second));
        return r;
    }
    default:
        return cf::from(v);
    }
}
template <class Val, int N>
Val to(const ref::V& r)
{
    using Ch = typename Val::char_type;
    switch (r.k)
    {
    case ref::Str:
        return Val(encode<Ch, N>(r.s));
    case ref::Arr:
    {
        Val v(configor::value_constant::array);
        for (auto& x : r.a)
            v.data().vector->push_back(to<Val, N>(x));
        return v;
    }
    case ref::Obj:
    {
        Val v(configor::value_constant::object);
        for (auto& m : r.o)
            v.data().object->emplace(encode<Ch, N>(m.first), to<Val, N>(m.second));
        return v;
    }
    default:
        return cf::to<Val>(r);
    }
}
}  // namespace forms
