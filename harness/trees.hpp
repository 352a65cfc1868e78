// Enumeration of value trees: every tree up to a weight over given leaves and keys.
#pragma once
#include "cfg.hpp"
namespace trees
{
using ref::V;
// weight: 1 for a leaf or an empty container, 1 + the sum of its elements for a container
struct Space
{
    std::vector<V>              leaves;
    std::vector<ref::U>         keys;  // in increasing order; objects take subsets
    std::vector<std::vector<V>> by;    // by[w]: all trees of weight w

    std::vector<std::vector<V>> seqs(unsigned w, unsigned len) const  // sequences of len trees of total weight w
    {
        std::vector<std::vector<V>> r;
        if (len == 0)
        {
            if (w == 0)
                r.push_back({});
            return r;
        }
        for (unsigned a = 1; a + len - 1 <= w; ++a)
            for (auto& rest : seqs(w - a, len - 1))
                for (auto& t : by[a])
                {
                    std::vector<V> s{ t };
                    s.insert(s.end(), rest.begin(), rest.end());
                    r.push_back(std::move(s));
                }
        return r;
    }
    void build(unsigned maxw)
    {
        by.assign(maxw + 1, {});
        by[1] = leaves;
        by[1].push_back(V::array());
        by[1].push_back(V::object());
        for (unsigned w = 2; w <= maxw; ++w)
            for (unsigned len = 1; len < w; ++len)
            {
                auto ss = seqs(w - 1, len);
                for (auto& s : ss)
                    by[w].push_back(V::array(s));
                for (unsigned m = 0; m < (1u << keys.size()); ++m)
                    if (static_cast<unsigned>(__builtin_popcount(m)) == len)
                        for (auto& s : ss)
                        {
                            V        o = V::object();
                            unsigned k = 0;
                            for (unsigned b = 0; b < keys.size(); ++b)
                                if (m >> b & 1)
                                    o.o.emplace_back(keys[b], s[k++]);
                            by[w].push_back(std::move(o));
                        }
            }
    }
    uint64_t size() const
    {
        uint64_t n = 0;
        for (auto& b : by)
            n += b.size();
        return n;
    }
    const V& operator[](uint64_t i) const
    {
        for (auto& b : by)
        {
            if (i < b.size())
                return b[i];
            i -= b.size();
        }
        throw mc::Fail{ "no such tree" };
    }
};

// floats over the whole range: sign, 11-bit exponent pattern, mantissa pattern
inline double float_of(uint64_t i)
{
    static const uint64_t man[] = { 0, 1, 0x8000000000000ull, 0xFFFFFFFFFFFFFull, 0x5555555555555ull, 0xAAAAAAAAAAAAAull, 0x3333333333333ull, 0x999999999999Aull,
                                    0x4000000000000ull, 0xC000000000000ull, 0x0000001000000ull, 0x921FB54442D18ull };
    uint64_t              s = i % 2, m = i / 2 % 12, e = i / 24 % 2048;
    uint64_t              b = s << 63 | e << 52 | man[m];
    double                d;
    std::memcpy(&d, &b, 8);
    return d;
}
constexpr uint64_t float_count = 2048 * 24;

// decimal fractions m * 10^-k: the floats people write
inline double decimal_of(uint64_t i)
{
    static const double p[] = { 1, 10, 100, 1000, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e12, 1e15, 1e18, 1e22 };
    return static_cast<double>(i / 28) / p[i / 2 % 14] * (i % 2 ? -1 : 1);
}

// integers near every power of two and ten
inline int64_t integer_of(uint64_t i)  // i < integer_count
{
    uint64_t k   = i % 83;
    int64_t  off = static_cast<int64_t>(i / 83 % 41) - 20;
    uint64_t x   = k < 64 ? 1ull << k : 1;
    for (uint64_t j = 64; j < k; ++j)
        x *= 10;
    x += static_cast<uint64_t>(off);
    if (i / 83 / 41)
        x = 0 - x;
    return static_cast<int64_t>(x);
}
constexpr uint64_t integer_count = 83 * 41 * 2;
}  // namespace trees
