// A controlled scheduler for real threads.  Threads run one at a time; control changes hands only at
// points (here: every allocation and release of memory, every character moved through a caller's stream
// buffer or adapter, and every call back into user code).  The hand-over uses raw system calls and
// uninstrumented accesses, so it orders nothing as far as ThreadSanitizer is concerned: two unordered
// accesses to the same memory are reported whichever schedule is being run.
#pragma once
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>
#define QUIET __attribute__((no_sanitize_thread, noinline))
namespace sched
{
constexpr int MAX = 3;
struct State
{
    int  active = -1, n = 0;
    int  live[MAX], blocked[MAX], tid[MAX];
    long ticks = 0, left = -1;  // left: points until the next switch, negative: none planned
    long plan[8];
    int  planned = 0, used = 0;
    long points[MAX];
    long switches = 0;
};
inline State S;
inline thread_local int me = -1;
inline thread_local int off = 0;

QUIET inline void wake() { syscall(SYS_futex, &S.active, FUTEX_WAKE, 1 << 20, nullptr, nullptr, 0); }
QUIET inline bool sleeping(int tid)  // is this thread blocked in the kernel?
{
    char path[64], b[256];
    int  n = 0;
    for (const char* p = "/proc/self/task/"; *p; ++p)
        path[n++] = *p;
    char d[12];
    int  k = 0;
    for (int t = tid; t; t /= 10)
        d[k++] = static_cast<char>('0' + t % 10);
    while (k)
        path[n++] = d[--k];
    for (const char* p = "/stat"; *p; ++p)
        path[n++] = *p;
    path[n] = 0;
    long fd = syscall(SYS_openat, AT_FDCWD, path, O_RDONLY, 0);
    if (fd < 0)
        return false;
    long r = syscall(SYS_read, fd, b, sizeof b - 1);
    syscall(SYS_close, fd);
    for (long i = 0; i + 2 < r; ++i)
        if (b[i] == ')')
            return b[i + 2] == 'S' || b[i + 2] == 'D';
    return false;
}
QUIET inline void await(int id)
{
    long seen   = -1;
    int  stalls = 0;
    for (;;)
    {
        int a = *static_cast<volatile int*>(&S.active);
        if (a == id)
            break;
        timespec ts = { 0, 4000000 };
        syscall(SYS_futex, &S.active, FUTEX_WAIT, a, &ts, nullptr, 0);
        int b = *static_cast<volatile int*>(&S.active);
        if (b != a || b < 0)
            continue;
        long t = *static_cast<volatile long*>(&S.ticks);
        // the running thread waits for something a waiting one holds: let the first waiting one run
        if (t != seen || !sleeping(S.tid[b]))
        {
            seen   = t;
            stalls = 0;
            continue;
        }
        if (++stalls < 2)
            continue;
        stalls    = 0;
        int first = -1;
        for (int i = 0; i < S.n && first < 0; ++i)
            if (i != b && S.live[i] && !S.blocked[i])
                first = i;
        if (first == id)
        {
            S.blocked[b] = 1;
            *static_cast<volatile int*>(&S.active) = id;
            wake();
            break;
        }
    }
    S.blocked[id] = 0;
    __sync_synchronize();
}
QUIET inline int other(int id)
{
    for (int pass = 0; pass < 2; ++pass)
        for (int k = 1; k < S.n; ++k)
        {
            int t = (id + k) % S.n;
            if (S.live[t] && (pass || !S.blocked[t]))
                return t;
        }
    return -1;
}
QUIET inline void hand_to(int t)
{
    S.left = S.used < S.planned ? S.plan[S.used++] : -1;
    ++S.switches;
    __sync_synchronize();
    *static_cast<volatile int*>(&S.active) = t;
    wake();
}
QUIET inline void point()
{
    if (me < 0 || off)
        return;
    if (*static_cast<volatile int*>(&S.active) != me)
        await(me);  // was taken for blocked
    ++S.ticks;
    ++S.points[me];
    if (S.left > 0 && --S.left == 0)
    {
        int t = other(me);
        if (t < 0)
        {
            S.left = -1;
            return;
        }
        hand_to(t);
        await(me);
    }
}
QUIET inline void enter(int id)
{
    me        = id;
    S.tid[id] = static_cast<int>(syscall(SYS_gettid));
    await(id);
}
QUIET inline void leave()
{
    if (*static_cast<volatile int*>(&S.active) != me)
        await(me);
    int id     = me;
    me         = -1;
    S.live[id] = 0;
    int t      = other(id);
    if (t >= 0)
        hand_to(t);
}
// prepare a run of n threads: the first to run, and the lengths (in points) of the stretches before the switches
QUIET inline void prepare(int n, int first, const long* plan, int planned)
{
    S.n = n;
    for (int i = 0; i < MAX; ++i)
        S.live[i] = i < n, S.blocked[i] = 0, S.tid[i] = 0, S.points[i] = 0;
    S.ticks = 0, S.switches = 0, S.planned = planned, S.used = 0;
    for (int i = 0; i < planned; ++i)
        S.plan[i] = plan[i];
    S.left   = planned ? S.plan[S.used++] : -1;
    S.active = -1;
}
QUIET inline void start(int first)
{
    __sync_synchronize();
    *static_cast<volatile int*>(&S.active) = first;
    wake();
}
struct Job
{
    int id;
    void (*f)(void*);
    void* arg;
};
inline void* trampoline(void* p)
{
    Job j = *static_cast<Job*>(p);
    enter(j.id);
    j.f(j.arg);
    leave();
    return nullptr;
}
inline void run(int n, Job* jobs, int first, const long* plan, int planned)
{
    prepare(n, first, plan, planned);
    pthread_t t[MAX];
    for (int i = 0; i < n; ++i)
        if (pthread_create(&t[i], nullptr, trampoline, &jobs[i]))
            std::abort();
    start(first);
    for (int i = 0; i < n; ++i)
        pthread_join(t[i], nullptr);
}
}  // namespace sched
void* operator new(std::size_t n)
{
    sched::point();
    if (void* p = std::malloc(n ? n : 1))
        return p;
    throw std::bad_alloc();
}
void operator delete(void* p) noexcept
{
    sched::point();
    std::free(p);
}
void operator delete(void* p, std::size_t) noexcept
{
    sched::point();
    std::free(p);
}
void* operator new[](std::size_t n) { return operator new(n); }
void  operator delete[](void* p) noexcept { operator delete(p); }
void  operator delete[](void* p, std::size_t) noexcept { operator delete(p); }
