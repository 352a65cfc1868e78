// Bounded exhaustive exploration driver.
//
// A check is a list of families.  A family is an indexed, finite set of cases: case number i of a
// family is a pure function of i (an input, an operation sequence, a fault point, a schedule), so
// running cases 0..n-1 enumerates the family completely and any single case can be replayed alone.
// Cases are dealt in chunks to forked worker processes; the case a worker is on is kept in shared
// memory, so a crash or a hang identifies its case.  A violation is replayed in a fresh process
// before it is reported: the case alone, else its chunk, else everything its worker had run.
#pragma once
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <ctime>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>
#include <vector>

namespace mc
{

struct Fail
{
    std::string msg;
};

inline uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
inline uint64_t hash(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull)
{
    auto c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i)
        h = (h ^ c[i]) * 0x100000001b3ull;
    return mix(h ^ n);
}
inline uint64_t hash(const std::string& s, uint64_t h = 0xcbf29ce484222325ull) { return hash(s.data(), s.size(), h); }

// printable form of bytes
inline std::string show(const std::string& s, size_t limit = 600)
{
    std::string r = "\"";
    char        b[8];
    for (size_t i = 0; i < s.size(); ++i)
    {
        if (i == limit)
        {
            r += "...(" + std::to_string(s.size()) + " bytes)";
            break;
        }
        unsigned char c = static_cast<unsigned char>(s[i]);
        if (c == '"' || c == '\\')
            (r += '\\') += static_cast<char>(c);
        else if (c >= 0x20 && c < 0x7f)
            r += static_cast<char>(c);
        else
        {
            std::snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        }
    }
    return r + "\"";
}
template <class Ch>
std::string showw(const std::basic_string<Ch>& s, size_t limit = 400)
{
    std::string r = "L\"";
    char        b[16];
    for (size_t i = 0; i < s.size(); ++i)
    {
        if (i == limit)
        {
            r += "...";
            break;
        }
        auto c = static_cast<uint32_t>(s[i]);
        if (c >= 0x20 && c < 0x7f && c != '"' && c != '\\')
            r += static_cast<char>(c);
        else
        {
            std::snprintf(b, sizeof b, "\\x{%x}", c);
            r += b;
        }
    }
    return r + "\"";
}
template <class Ch>
std::string shows(const std::basic_string<Ch>& s)
{
    return showw(s);
}
inline std::string shows(const std::string& s) { return show(s); }

// a set of 64-bit keys shared by all workers
struct SharedSet
{
    static constexpr uint64_t bits = 23, size = 1ull << bits, cap = size - size / 8;
    std::atomic<uint64_t>     count;
    std::atomic<uint64_t>     saturated;
    std::atomic<uint64_t>     slot[size];

    bool insert(uint64_t k)
    {
        if (k == 0)
            k = 1;
        if (count.load(std::memory_order_relaxed) >= cap)
        {
            saturated.store(1, std::memory_order_relaxed);
            return true;
        }
        for (uint64_t i = mix(k) & (size - 1);; i = (i + 1) & (size - 1))
        {
            uint64_t v = slot[i].load(std::memory_order_relaxed);
            if (v == k)
                return false;
            if (v == 0)
            {
                if (slot[i].compare_exchange_strong(v, k))
                {
                    count.fetch_add(1, std::memory_order_relaxed);
                    return true;
                }
                if (v == k)
                    return false;
            }
        }
    }
};

struct Counters
{
    std::atomic<uint64_t> evals, transitions, traces, extra[8];
};

constexpr int max_workers = 16, max_hist = 1 << 16;

struct WorkerSlot
{
    std::atomic<uint64_t> fam, idx, chunk_begin, busy_since_ms, nhist;
    uint64_t              hist[max_hist];  // chunks begun: family << 48 | first index
};

struct Shared
{
    Counters              c;
    std::atomic<uint64_t> next_fam_chunk;
    std::atomic<int>      stop, violated;
    uint64_t              v_fam, v_idx, v_worker, v_chunk;
    char                  v_msg[8192];
    std::atomic<uint64_t> fam_done[4096];
    WorkerSlot            w[max_workers];
    SharedSet             outcomes;
    SharedSet             states;
};

struct Ctx
{
    Shared*     sh      = nullptr;
    bool        verbose = false;
    std::string log;

    uint64_t    l_ev = 0, l_tr = 0, l_tc = 0, l_ex[8] = {};

    // one execution of the code under test, compared with its oracle
    void eval(uint64_t n = 1) { l_ev += n; }
    void transition(uint64_t n = 1) { l_tr += n; }
    void trace(uint64_t n = 1) { l_tc += n; }
    void extra(int k, uint64_t n = 1) { l_ex[k] += n; }
    void flush()
    {
        sh->c.evals += l_ev;
        sh->c.transitions += l_tr;
        sh->c.traces += l_tc;
        for (int k = 0; k < 8; ++k)
        {
            sh->c.extra[k] += l_ex[k];
            l_ex[k] = 0;
        }
        l_ev = l_tr = l_tc = 0;
    }
    bool state(uint64_t h) { return sh->states.insert(h); }
    bool outcome(uint64_t h) { return sh->outcomes.insert(h); }
    void note(const std::string& s)
    {
        if (verbose && log.size() < 3000)
        {
            log += s;
            log += '\n';
        }
    }
    [[noreturn]] void fail(const std::string& m) const { throw Fail{ m }; }
    void              check(bool ok, const char* m) const
    {
        if (!ok)
            throw Fail{ m };
    }
};

struct Family
{
    std::string                         name, rule;
    uint64_t                            n;
    std::function<void(Ctx&, uint64_t)> run;
    double                              timeout = 30;   // seconds for one case
    uint64_t                            chunk   = 0;    // 0: choose
};

// a defect of the code that is recorded rather than repaired: its one failing case, run apart
struct Known
{
    std::string               key, what;
    std::function<void(Ctx&)> run;
    double                    timeout = 60;
};

struct Check
{
    std::string              id, part;
    std::vector<Known>       known;
    std::vector<Family>      fam;
    std::string              rule;
    std::vector<std::string> assumptions;
    std::vector<std::string> extra_names;
    int                      workers  = 8;
    uint64_t                 mem_mb   = 3000;  // address space per worker (0: unlimited, for ASan)
    bool                     thorough = false;
    std::function<void()>    init;             // in each process, before cases

    void add(std::string name, uint64_t n, std::string rule_, std::function<void(Ctx&, uint64_t)> f, double timeout = 30,
             uint64_t chunk = 0)
    {
        fam.push_back(Family{ std::move(name), std::move(rule_), n, std::move(f), timeout, chunk });
    }
};

inline double now_s()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// processor time used by a process of ours
inline double cpu_s(pid_t p)
{
    clockid_t c;
    timespec  t;
    if (clock_getcpuclockid(p, &c) || clock_gettime(c, &t))
        return 0;
    return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) / 1e9;
}

inline std::string jstr(const std::string& s)
{
    std::string r = "\"";
    char        b[8];
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
            (r += '\\') += static_cast<char>(c);
        else if (c >= 0x20 && c < 0x7f)
            r += static_cast<char>(c);
        else
        {
            std::snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
    }
    return r + "\"";
}

inline std::string current_exception_text()
{
    auto*       t = abi::__cxa_current_exception_type();
    std::string name;
    if (t)
    {
        int   st = 0;
        char* d  = abi::__cxa_demangle(t->name(), nullptr, nullptr, &st);
        name     = d ? d : t->name();
        std::free(d);
    }
    try
    {
        throw;
    }
    catch (const std::exception& e)
    {
        return name + ": " + e.what();
    }
    catch (...)
    {
        return name;
    }
}

// run one case; returns true and sets msg when the property fails
inline bool run_case(Check& ck, Ctx& cx, uint64_t f, uint64_t i, std::string& msg)
{
    try
    {
        ck.fam[f].run(cx, i);
        return false;
    }
    catch (const Fail& e)
    {
        msg = e.msg;
    }
    catch (...)
    {
        msg = "unexpected exception escaped: " + current_exception_text();
    }
    return true;
}

struct Engine
{
    Check&      ck;
    Shared*     sh;
    std::string work;  // directory for worker output
    double      deadline;
    bool        capped = false;

    struct Range
    {
        uint64_t f, b, e;
    };
    std::vector<uint64_t> fam_first_chunk, fam_chunk;
    uint64_t              nchunks = 0;

    explicit Engine(Check& c, std::string w, double dl)
        : ck(c)
        , work(std::move(w))
        , deadline(dl)
    {
        sh = static_cast<Shared*>(
            mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if (sh == MAP_FAILED)
        {
            std::perror("mmap");
            std::exit(2);
        }
        for (auto& f : ck.fam)
        {
            uint64_t c = f.chunk ? f.chunk : f.n / (static_cast<uint64_t>(ck.workers) * 24) + 1;
            if (!f.chunk && c > 20000)
                c = 20000;
            fam_first_chunk.push_back(nchunks);
            fam_chunk.push_back(c);
            nchunks += (f.n + c - 1) / c;
        }
    }

    void reset()
    {
        // drop everything but keep the mapping
        madvise(sh, sizeof(Shared), MADV_REMOVE);
        std::memset(static_cast<void*>(&sh->c), 0, sizeof sh->c);
        sh->next_fam_chunk = 0;
        sh->stop           = 0;
        sh->violated       = 0;
        for (auto& x : sh->fam_done)
            x = 0;
        for (auto& x : sh->w)
            x.nhist = 0;
        std::memset(static_cast<void*>(&sh->outcomes), 0, sizeof sh->outcomes);
        std::memset(static_cast<void*>(&sh->states), 0, sizeof sh->states);
    }

    Range range(uint64_t k) const
    {
        uint64_t lo = 0, hi = ck.fam.size();
        while (hi - lo > 1)
        {
            uint64_t m = (lo + hi) / 2;
            if (fam_first_chunk[m] <= k)
                lo = m;
            else
                hi = m;
        }
        // skip empty families
        uint64_t b = (k - fam_first_chunk[lo]) * fam_chunk[lo];
        uint64_t e = b + fam_chunk[lo];
        if (e > ck.fam[lo].n)
            e = ck.fam[lo].n;
        return { lo, b, e };
    }

    void limits() const
    {
        rlimit r{ 0, 0 };
        setrlimit(RLIMIT_CORE, &r);
        if (ck.mem_mb)
        {
            r.rlim_cur = r.rlim_max = (ck.mem_mb + sizeof(Shared) / 1048576 + 200) * 1048576ull;
            setrlimit(RLIMIT_AS, &r);
        }
    }

    static uint64_t ms()
    {
        return static_cast<uint64_t>(now_s() * 1000);
    }

    void redirect(const std::string& file) const
    {
        int fd = open(file.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        if (fd >= 0)
        {
            dup2(fd, 2);
            dup2(fd, 1);
            close(fd);
        }
    }

    void worker(int w)
    {
        limits();
        redirect(work + "/w" + std::to_string(w) + ".txt");
        auto& s = sh->w[w];
        Ctx   cx;
        cx.sh = sh;
        if (ck.init)
            ck.init();
        std::string msg;
        while (!sh->stop)
        {
            uint64_t k = sh->next_fam_chunk.fetch_add(1);
            if (k >= nchunks)
                break;
            Range r = range(k);
            s.fam   = r.f;
            s.chunk_begin = r.b;
            uint64_t h    = s.nhist.load();
            if (h < max_hist)
            {
                s.hist[h] = k;
                s.nhist   = h + 1;
            }
            for (uint64_t i = r.b; i < r.e; ++i)
            {
                s.idx           = i;
                s.busy_since_ms = ms();
                if (run_case(ck, cx, r.f, i, msg))
                {
                    int z = 0;
                    if (sh->violated.compare_exchange_strong(z, 1))
                    {
                        sh->v_fam    = r.f;
                        sh->v_idx    = i;
                        sh->v_worker = static_cast<uint64_t>(w);
                        sh->v_chunk  = k;
                        std::snprintf(sh->v_msg, sizeof sh->v_msg, "%s", msg.c_str());
                        sh->violated = 2;
                    }
                    sh->stop = 1;
                    s.busy_since_ms = 0;
                    std::fflush(nullptr);
                    _exit(0);
                }
                if (sh->stop)
                    break;
            }
            s.busy_since_ms = 0;
            cx.flush();
            sh->fam_done[r.f].fetch_add(r.e - r.b, std::memory_order_relaxed);
        }
        std::fflush(nullptr);
        _exit(0);
    }

    struct Found
    {
        bool        any = false;
        uint64_t    fam = 0, idx = 0, worker = 0, chunk = 0;
        std::string msg, output;
    };

    static std::string slurp(const std::string& f, size_t limit = 6000)
    {
        std::ifstream     in(f, std::ios::binary);
        std::stringstream ss;
        ss << in.rdbuf();
        auto s = ss.str();
        return s.size() > limit ? s.substr(0, limit) + "..." : s;
    }

    static std::string ending(int st)
    {
        if (WIFSIGNALED(st))
            return std::string("killed by signal ") + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")";
        return "process ended with status " + std::to_string(WEXITSTATUS(st));
    }

    Found explore()
    {
        Found              fd;
        std::vector<pid_t> pid(static_cast<size_t>(ck.workers));
        std::fflush(nullptr);
        for (int w = 0; w < ck.workers; ++w)
        {
            pid_t p = fork();
            if (p == 0)
                worker(w);
            if (p < 0)
            {
                std::perror("fork");
                std::exit(2);
            }
            pid[static_cast<size_t>(w)] = p;
        }
        int  live    = ck.workers;
        auto crashed = [&](int w, const std::string& why)
        {
            auto& s = sh->w[w];
            int   z = 0;
            if (sh->violated.compare_exchange_strong(z, 2))
            {
                fd.any    = true;
                fd.fam    = s.fam;
                fd.idx    = s.idx;
                fd.worker = static_cast<uint64_t>(w);
                fd.chunk  = s.nhist ? s.hist[s.nhist - 1] : 0;
                fd.msg    = why;
                fd.output = slurp(work + "/w" + std::to_string(w) + ".txt");
            }
            sh->stop = 1;
        };
        double stop_at = 0;
        // of each worker: the start of the case last seen running, and its processor time then
        std::vector<uint64_t> seen(static_cast<size_t>(ck.workers));
        std::vector<double>   cpu0(static_cast<size_t>(ck.workers));
        while (live)
        {
            int   st;
            pid_t p = waitpid(-1, &st, WNOHANG);
            if (p > 0)
            {
                for (int w = 0; w < ck.workers; ++w)
                    if (pid[static_cast<size_t>(w)] == p)
                    {
                        pid[static_cast<size_t>(w)] = 0;
                        --live;
                        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && !sh->stop)
                            crashed(w, ending(st));
                    }
                continue;
            }
            usleep(5000);
            double t = now_s();
            for (int w = 0; w < ck.workers; ++w)
                if (pid[static_cast<size_t>(w)])
                {
                    auto   z   = static_cast<size_t>(w);
                    auto   b   = sh->w[w].busy_since_ms.load();
                    double lim = ck.fam[sh->w[w].fam].timeout;
                    if (b != seen[z])
                    {
                        seen[z] = b;
                        cpu0[z] = cpu_s(pid[z]);
                        continue;
                    }
                    double wall = t - static_cast<double>(b) / 1000;
                    // a case that computes for too long, or that waits for something that never comes
                    if (b && wall > lim && (cpu_s(pid[z]) - cpu0[z] > lim || wall > lim * 3 + 60) && !sh->stop)
                    {
                        crashed(w, "the case did not finish within " + std::to_string(static_cast<int>(lim)) + " s");
                        kill(pid[static_cast<size_t>(w)], SIGKILL);
                    }
                }
            if (t > deadline && !sh->stop)
            {
                capped   = true;
                sh->stop = 1;
            }
            if (sh->stop)
            {
                if (!stop_at)
                    stop_at = t;
                if (t - stop_at > 5)
                    for (int w = 0; w < ck.workers; ++w)
                        if (pid[static_cast<size_t>(w)])
                            kill(pid[static_cast<size_t>(w)], SIGKILL);
            }
        }
        if (!fd.any && sh->violated == 2)
        {
            fd.any    = true;
            fd.fam    = sh->v_fam;
            fd.idx    = sh->v_idx;
            fd.worker = sh->v_worker;
            fd.chunk  = sh->v_chunk;
            fd.msg    = sh->v_msg;
        }
        return fd;
    }

    struct Single
    {
        bool        failed = false;
        std::string msg, log;
    };

    // run a list of (family, first, last) in a fresh process, the last case verbosely
    Single replay(const std::vector<Range>& rs, double limit)
    {
        Single      r;
        std::string out = work + "/replay.txt";
        unlink((out + ".msg").c_str());
        std::fflush(nullptr);
        pid_t p = fork();
        if (p == 0)
        {
            limits();
            redirect(out);
            if (ck.init)
                ck.init();
            Ctx cx;
            cx.sh = sh;
            std::string msg;
            for (size_t k = 0; k < rs.size(); ++k)
                for (uint64_t i = rs[k].b; i < rs[k].e; ++i)
                {
                    cx.verbose = (k + 1 == rs.size() && i + 1 == rs[k].e);
                    cx.log.clear();
                    if (cx.verbose)
                    {
                        std::ofstream o(out + ".at", std::ios::binary);
                        o << ck.fam[rs[k].f].name << " " << i;
                    }
                    bool bad = run_case(ck, cx, rs[k].f, i, msg);
                    if (bad)
                    {
                        std::ofstream o(out + ".msg", std::ios::binary);
                        o << "F" << ck.fam[rs[k].f].name << " case " << i << ": " << msg << "\n" << cx.log;
                        o.close();
                        std::fflush(nullptr);
                        _exit(0);
                    }
                }
            std::ofstream o(out + ".msg", std::ios::binary);
            o << "P" << cx.log;
            o.close();
            std::fflush(nullptr);
            _exit(0);
        }
        double t0 = now_s();
        int    st = 0;
        while (true)
        {
            pid_t q = waitpid(p, &st, WNOHANG);
            if (q == p)
                break;
            usleep(2000);
            if (now_s() - t0 > limit && (cpu_s(p) > limit || now_s() - t0 > limit * 2))
            {
                kill(p, SIGKILL);
                waitpid(p, &st, 0);
                r.failed = true;
                r.msg    = "did not finish within " + std::to_string(static_cast<int>(limit)) + " s when run alone";
                return r;
            }
        }
        auto m = slurp(out + ".msg", 20000);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
        {
            r.failed = true;
            r.msg    = ending(st);
            r.log    = slurp(out);
        }
        else if (!m.empty() && m[0] == 'F')
        {
            r.failed = true;
            r.msg    = m.substr(1);
        }
        else
            r.log = m.empty() ? m : m.substr(1);
        return r;
    }
};

inline int run(Check& ck, int argc, char** argv)
{
    std::string tier = "quick", out, replays = ".", work = ".", only;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto        v = [&] { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
        if (a == "--tier")
            tier = v();
        else if (a == "--out")
            out = v();
        else if (a == "--replays")
            replays = v();
        else if (a == "--work")
            work = v();
        else if (a == "--replay")
            only = v();
        else if (a == "--list")
            only = "list";
    }
    double t0 = now_s();
    Engine en(ck, work, t0 + (tier == "quick" ? 500 : 3000));
    if (only == "list")
    {
        for (auto& f : ck.fam)
            std::printf("%-28s %12llu  %s\n", f.name.c_str(), static_cast<unsigned long long>(f.n), f.rule.c_str());
        return 0;
    }
    if (only.compare(0, 6, "known:") == 0)
    {
        for (auto& k : ck.known)
            if (only == "known:" + k.key)
            {
                ck.fam.assign(1, Family{ k.key, k.what, 1, [&](Ctx& cx, uint64_t) { k.run(cx); } });
                auto r = en.replay({ { 0, 0, 1 } }, k.timeout);
                std::printf("%s\n%s\n%s\n", r.failed ? "FAILS" : "holds", r.msg.c_str(), r.log.c_str());
                return r.failed ? 1 : 0;
            }
        return 2;
    }
    if (!only.empty())
    {
        // --replay family:index[,family:first-last...]
        std::vector<Engine::Range> rs;
        std::stringstream          ss(only);
        std::string                it;
        while (std::getline(ss, it, ','))
        {
            auto        c    = it.rfind(':');
            std::string name = it.substr(0, c), rg = it.substr(c + 1);
            auto        d    = rg.find('-');
            uint64_t    b = std::strtoull(rg.c_str(), nullptr, 10), e = d == std::string::npos ? b : std::strtoull(rg.c_str() + d + 1, nullptr, 10);
            bool        hit = false;
            for (size_t f = 0; f < ck.fam.size(); ++f)
                if (ck.fam[f].name == name)
                {
                    rs.push_back({ f, b, e + 1 });
                    hit = true;
                }
            if (!hit)
            {
                std::printf("no family %s\n", name.c_str());
                return 2;
            }
        }
        auto r = en.replay(rs, 120);
        std::printf("%s\n%s\n%s\n", r.failed ? "FAILS" : "holds", r.msg.c_str(), r.log.c_str());
        return r.failed ? 1 : 0;
    }

    std::string verdict = "ok", path, detail;
    int         unconfirmed = 0;
    for (int attempt = 0; attempt < 3; ++attempt)
    {
        if (attempt)
            en.reset();
        auto f = en.explore();
        if (!f.any)
            break;
        std::fprintf(stderr, "candidate: %s case %llu: %s\n%s\n", ck.fam[f.fam].name.c_str(),
                     static_cast<unsigned long long>(f.idx), f.msg.c_str(), f.output.c_str());
        double                     lim = ck.fam[f.fam].timeout * 3;
        std::string                how;
        std::vector<Engine::Range> rs{ { f.fam, f.idx, f.idx + 1 } };
        auto                       r = en.replay(rs, lim);
        how                          = "the case alone";
        if (!r.failed)
        {
            auto c = en.range(f.chunk);
            rs     = { { f.fam, c.b, f.idx + 1 } };
            r      = en.replay(rs, lim + 60);
            how    = "the cases of its chunk in order";
        }
        if (!r.failed)
        {
            rs.clear();
            auto& s = en.sh->w[f.worker];
            for (uint64_t k = 0; k + 1 < s.nhist; ++k)
                rs.push_back(en.range(s.hist[k]));
            auto c = en.range(f.chunk);
            rs.push_back({ f.fam, c.b, f.idx + 1 });
            r   = en.replay(rs, lim + 300);
            how = "everything its process had run, in order";
        }
        if (!r.failed && unconfirmed)
        {
            // seen in two independent explorations, though not when replayed in isolation
            r.failed = true;
            r.msg    = f.msg + "\n" + f.output;
            how      = "a second full exploration";
        }
        if (!r.failed)
        {
            ++unconfirmed;
            std::fprintf(stderr, "not reproduced; exploring again\n");
            continue;
        }
        mkdir(replays.c_str(), 0755);
        path = replays + "/" + ck.id + "-" + ck.part + "-" + ck.fam[f.fam].name + "-" + std::to_string(f.idx) + ".txt";
        for (auto& ch : path)
            if (ch == ' ')
                ch = '_';
        std::ofstream o(path, std::ios::binary);
        std::string   spec;
        for (auto& x : rs)
            spec += (spec.empty() ? "" : ",") + ck.fam[x.f].name + ":" + std::to_string(x.b)
                    + (x.e - x.b > 1 ? "-" + std::to_string(x.e - 1) : "");
        if (spec.size() > 4000)
            spec = ck.fam[f.fam].name + ":" + std::to_string(f.idx);
        o << "property " << ck.id << "\npart " << ck.part << "\ntier " << tier << "\nreplay " << spec << "\nreproduced by " << how
          << "\nfamily rule: " << ck.fam[f.fam].rule << "\n\n" << r.msg << "\n" << r.log << "\nfirst seen as: " << f.msg << "\n"
          << f.output << "\n";
        verdict = "violation";
        detail  = r.msg;
        break;
    }

    // samples: run the middle case of each family verbosely
    std::string samples;
    if (verdict == "ok")
    {
        uint64_t keep[3] = { en.sh->c.evals, en.sh->c.transitions, en.sh->c.traces };
        uint64_t ko = en.sh->outcomes.count, ks = en.sh->states.count;
        uint64_t kx[8];
        for (int i = 0; i < 8; ++i)
            kx[i] = en.sh->c.extra[i];
        for (size_t f = 0; f < ck.fam.size(); ++f)
        {
            if (ck.fam[f].n == 0)
                continue;
            uint64_t i = ck.fam[f].n / 2;
            auto     r = en.replay({ { f, i, i + 1 } }, ck.fam[f].timeout * 3);
            auto     l = r.log.substr(0, 500);
            samples += (samples.empty() ? "" : ",\n    ") + jstr(ck.fam[f].name + " case " + std::to_string(i) + ": " + l);
        }
        en.sh->c.evals       = keep[0];
        en.sh->c.transitions = keep[1];
        en.sh->c.traces      = keep[2];
        en.sh->outcomes.count = ko;
        en.sh->states.count   = ks;
        for (int i = 0; i < 8; ++i)
            en.sh->c.extra[i] = kx[i];
    }
    std::string known;
    if (verdict == "ok")
        for (auto& k : ck.known)
        {
            ck.fam.push_back(Family{ k.key, k.what, 1, [&](Ctx& cx, uint64_t) { k.run(cx); } });
            uint64_t f = ck.fam.size() - 1;
            auto     r = en.replay({ { f, 0, 1 } }, k.timeout);
            ck.fam.pop_back();
            known += (known.empty() ? "" : ",") + std::string("{\"key\":") + jstr(k.key) + ",\"what\":" + jstr(k.what)
                     + ",\"failed\":" + (r.failed ? "true" : "false") + ",\"msg\":" + jstr((r.msg + " " + r.log).substr(0, 1000)) + "}";
        }
    bool complete = !en.capped;
    std::string fams;
    for (size_t f = 0; f < ck.fam.size(); ++f)
    {
        uint64_t d = en.sh->fam_done[f];
        if (d != ck.fam[f].n)
            complete = false;
        fams += (fams.empty() ? "" : ",\n    ") + std::string("{\"family\":") + jstr(ck.fam[f].name) + ",\"cases\":"
                + std::to_string(ck.fam[f].n) + ",\"explored\":" + std::to_string(d) + ",\"rule\":" + jstr(ck.fam[f].rule) + "}";
    }
    if (!out.empty())
    {
        std::ofstream o(out);
        o << "{\"verdict\":" << jstr(verdict) << ",\"replay\":" << jstr(path) << ",\"detail\":" << jstr(detail.substr(0, 1500))
          << ",\n \"evaluations\":" << en.sh->c.evals << ",\"transitions\":" << en.sh->c.transitions << ",\"traces\":" << en.sh->c.traces
          << ",\"outcomes\":" << en.sh->outcomes.count << ",\"outcomes_saturated\":" << en.sh->outcomes.saturated
          << ",\"states\":" << en.sh->states.count << ",\"states_saturated\":" << en.sh->states.saturated
          << ",\"exhaustive\":" << (complete ? "true" : "false") << ",\"unconfirmed\":" << unconfirmed;
        for (size_t i = 0; i < ck.extra_names.size(); ++i)
            o << "," << jstr("x_" + ck.extra_names[i]) << ":" << en.sh->c.extra[i];
        o << ",\n \"known\":[" << known << "]";
        o << ",\n \"rule\":" << jstr(ck.rule) << ",\n \"families\":[" << fams << "],\n \"samples\":[" << samples << "],\n \"assumptions\":[";
        for (size_t i = 0; i < ck.assumptions.size(); ++i)
            o << (i ? "," : "") << jstr(ck.assumptions[i]);
        o << "],\n \"wall_s\":" << now_s() - t0 << "}\n";
    }
    std::printf("%s %s: %s evals=%llu transitions=%llu states=%llu outcomes=%llu %.1fs%s\n", ck.id.c_str(), ck.part.c_str(),
                verdict.c_str(), static_cast<unsigned long long>(en.sh->c.evals),
                static_cast<unsigned long long>(en.sh->c.transitions), static_cast<unsigned long long>(en.sh->states.count),
                static_cast<unsigned long long>(en.sh->outcomes.count), now_s() - t0, complete ? "" : " (not complete)");
    if (verdict != "ok")
        std::printf("%s\n", detail.c_str());
    return verdict == "ok" ? 0 : 1;
}

inline bool is_thorough(int argc, char** argv)
{
    for (int i = 1; i + 1 < argc; ++i)
        if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough")
            return true;
    return false;
}

// ---- enumeration helpers ---------------------------------------------------------------------

// sizes 0..n-1, and beyond them the borders where a counter of 12, 15, 16 or 17 bits would turn over
static const unsigned big_sizes = 12;
inline uint64_t size_at(uint64_t k, uint64_t n)
{
    static const unsigned big[big_sizes] = { 4095, 4096, 4097, 8193, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 131073 };
    return k < n ? k : big[k - n];
}
inline uint64_t ipow(uint64_t a, unsigned n)
{
    uint64_t r = 1;
    while (n--)
        r *= a;
    return r;
}
// number of words of length 0..n over an alphabet of a letters
inline uint64_t words_upto(uint64_t a, unsigned n)
{
    uint64_t r = 0;
    for (unsigned k = 0; k <= n; ++k)
        r += ipow(a, k);
    return r;
}
// the i-th such word, shortest first
inline std::vector<unsigned> word(uint64_t a, uint64_t i)
{
    unsigned len = 0;
    uint64_t c   = 1;
    while (i >= c)
    {
        i -= c;
        c *= a;
        ++len;
    }
    std::vector<unsigned> w(len);
    for (unsigned k = len; k-- > 0;)
    {
        w[k] = static_cast<unsigned>(i % a);
        i /= a;
    }
    return w;
}
struct Digits  // mixed radix decoding of an index
{
    uint64_t i;
    explicit Digits(uint64_t x)
        : i(x)
    {
    }
    uint64_t operator()(uint64_t radix)
    {
        uint64_t d = i % radix;
        i /= radix;
        return d;
    }
};

}  // namespace mc
