// Executable-contract harness: seeded random and directed cases against the real code.
// Usage: h PROP --seed N --scale K            run every case of PROP
//        h PROP --case NAME --index I --seed N  replay one case
#pragma once
#include <signal.h>
#include <sys/resource.h>
#include <unistd.h>

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace hk
{
struct Rng
{
    uint64_t s;
    uint64_t next()
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    // integer in [a, b]
    int64_t in(int64_t a, int64_t b) { return a + static_cast<int64_t>(next() % static_cast<uint64_t>(b - a + 1)); }
    bool coin(int pct = 50) { return static_cast<int>(next() % 100) < pct; }
    // small dyadic value k/4: sums and products of a few of them are exact
    double dy(int lo, int hi) { return static_cast<double>(in(lo * 4, hi * 4)) / 4.0; }
    template <typename V>
    auto &pick(V &v)
    {
        return v[next() % v.size()];
    }
    template <typename T>
    T one(std::initializer_list<T> l)
    {
        return *(l.begin() + next() % l.size());
    }
    template <typename V>
    void shuffle(V &v)
    {
        for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[next() % i]);
    }
};

struct Fail : std::runtime_error
{
    using std::runtime_error::runtime_error;
};

struct Case
{
    std::string prop, name;
    int n;
    std::function<void(Rng &)> body;
};
inline std::vector<Case> &cases()
{
    static std::vector<Case> c;
    return c;
}
struct Reg
{
    Reg(const char *p, const char *n, int k, std::function<void(Rng &)> f) { cases().push_back({p, n, k, f}); }
};

inline std::string &trace()
{
    static std::string t;
    return t;
}
// describe the input of the running case (shown when it fails)
template <typename... A>
void note(const A &...a)
{
    if (trace().size() > 6000) return;
    std::ostringstream o;
    (o << ... << a);
    trace() += o.str();
    trace() += "; ";
}
template <typename... A>
[[noreturn]] void fail(const A &...a)
{
    std::ostringstream o;
    o.precision(17);
    (o << ... << a);
    throw Fail(o.str());
}

inline char g_cur[512];
inline void on_signal(int s)
{
    char b[700];
    int n = snprintf(b, sizeof b, "\nFAIL %s :: %s\n", g_cur,
                     s == SIGALRM || s == SIGXCPU ? "the call did not return" : "the process was killed by a signal (crash)");
    if (write(1, b, n)) {}
    _exit(1);
}

inline uint64_t mix(uint64_t seed, const std::string &s, uint64_t i)
{
    uint64_t h = 1469598103934665603ull ^ seed * 0x9e3779b97f4a7c15ull;
    for (char c : s) h = (h ^ static_cast<unsigned char>(c)) * 1099511628211ull;
    Rng r{h + i * 0xd6e8feb86659fd93ull};
    return r.next();
}

inline bool run1(const Case &c, uint64_t seed, int i)
{
    snprintf(g_cur, sizeof g_cur, "case=%s index=%d seed=%llu", c.name.c_str(), i, (unsigned long long)seed);
    trace().clear();
    Rng r{mix(seed, c.name, i)};
    try
    {
        c.body(r);
        return true;
    }
    catch (const Fail &e)
    {
        printf("FAIL %s :: %s [input: %s]\n", g_cur, e.what(), trace().c_str());
    }
    catch (const std::exception &e)
    {
        printf("FAIL %s :: unexpected exception: %s [input: %s]\n", g_cur, e.what(), trace().c_str());
    }
    fflush(stdout);
    return false;
}

inline int main_(int argc, char **argv)
{
    std::string prop = argc > 1 ? argv[1] : "", only;
    uint64_t seed = 1;
    double scale = 1;
    int index = -1;
    for (int i = 2; i + 1 < argc; i += 2)
    {
        std::string a = argv[i];
        if (a == "--seed") seed = strtoull(argv[i + 1], nullptr, 10);
        if (a == "--scale") scale = atof(argv[i + 1]);
        if (a == "--case") only = argv[i + 1];
        if (a == "--index") index = atoi(argv[i + 1]);
    }
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM, SIGXCPU}) signal(s, on_signal);
    setvbuf(stdout, nullptr, _IOLBF, 0);
    bool ok = true;
    int ran = 0;
    for (auto &c : cases())
    {
        if (c.prop != prop || (!only.empty() && c.name != only)) continue;
        ++ran;
        if (index >= 0)
        {
            alarm(300);
            ok &= run1(c, seed, index);
            continue;
        }
        int n = std::max(1, static_cast<int>(c.n * scale)), done = 0;
        bool good = true;
        for (int i = 0; i < n && good; ++i, ++done)
        {
            alarm(240);
            good = run1(c, seed, i);
        }
        ok &= good;
        printf("CASE %s runs=%d ok=%d\n", c.name.c_str(), done, good ? 1 : 0);
    }
    alarm(0);
    if (!ran)
    {
        printf("NOCASE\n");
        return 2;
    }
    printf("DONE\n");
    fflush(stdout);
    _exit(ok ? 0 : 1);
}
}  // namespace hk

#define HK_CAT2(a, b) a##b
#define HK_CAT(a, b) HK_CAT2(a, b)
#define HK_CASE(prop, name, n)                                                   \
    static void HK_CAT(hk_body_, __LINE__)(hk::Rng & r);                         \
    static hk::Reg HK_CAT(hk_reg_, __LINE__)(prop, name, n, HK_CAT(hk_body_, __LINE__)); \
    static void HK_CAT(hk_body_, __LINE__)(hk::Rng & r)
#define HK_MAIN \
    int main(int argc, char **argv) { return hk::main_(argc, argv); }
#define REQUIRE(c, ...)                                                    \
    do                                                                     \
    {                                                                      \
        if (!(c)) hk::fail(#c, " is false: ", __VA_ARGS__);                \
    } while (0)
#define SAME(a, b, ...)                                                                            \
    do                                                                                             \
    {                                                                                              \
        auto hk_a = (a);                                                                           \
        auto hk_b = (b);                                                                           \
        if (!(hk_a == hk_b || (hk_a != hk_a && hk_b != hk_b)))                                     \
            hk::fail(#a, ": got ", hk_a, ", the property requires ", hk_b, " " __VA_OPT__(, ) __VA_ARGS__);      \
    } while (0)
