// The global heap of a harness: counts live blocks, and can fail a chosen allocation.
// Included by exactly one translation unit; for single-threaded harnesses.
#pragma once
#include <cstdlib>
#include <new>
namespace heap
{
inline long live = 0, made = 0;
inline long fail_at = -1, fail_from = -1;  // number of the allocation to fail (counting from arm())
inline long seen = 0;
inline bool armed = false, hit = false;
inline void arm(long at, long from = -1)
{
    fail_at = at, fail_from = from, seen = 0, hit = false, armed = true;
}
inline long disarm()
{
    armed = false;
    return seen;
}
inline void* take(std::size_t n)
{
    if (armed)
    {
        long k = seen++;
        if (k == fail_at || (fail_from >= 0 && k >= fail_from))
        {
            hit = true;
            return nullptr;
        }
    }
    void* p = std::malloc(n ? n : 1);
    if (p)
        ++live, ++made;
    return p;
}
inline void give(void* p)
{
    if (p)
        --live;
    std::free(p);
}
}  // namespace heap
void* operator new(std::size_t n)
{
    if (void* p = heap::take(n))
        return p;
    throw std::bad_alloc();
}
void* operator new[](std::size_t n)
{
    if (void* p = heap::take(n))
        return p;
    throw std::bad_alloc();
}
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return heap::take(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return heap::take(n); }
void  operator delete(void* p) noexcept { heap::give(p); }
void  operator delete[](void* p) noexcept { heap::give(p); }
void  operator delete(void* p, std::size_t) noexcept { heap::give(p); }
void  operator delete[](void* p, std::size_t) noexcept { heap::give(p); }
void  operator delete(void* p, const std::nothrow_t&) noexcept { heap::give(p); }
void  operator delete[](void* p, const std::nothrow_t&) noexcept { heap::give(p); }
