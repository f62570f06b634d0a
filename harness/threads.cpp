// T01: the thread pool runs every posted task exactly once.
#include "hk.h"

#include <knp/backends/thread_pool/thread_pool.h>

#include <atomic>
#include <memory>
#include <thread>

using Pool = knp::backends::cpu_executors::ThreadPool;

namespace
{
struct Tasks
{
    explicit Tasks(size_t n) : size(n), runs(new std::atomic<int>[n]), done(new std::atomic<int>[n])
    {
        for (size_t i = 0; i < n; ++i) runs[i] = 0, done[i] = 0;
    }
    void run(size_t i, int pause)
    {
        ++runs[i];
        if (pause == 1) std::this_thread::yield();
        if (pause > 1) usleep(pause);
        ++done[i];
    }
    void check(size_t n, const char *when) const
    {
        for (size_t i = 0; i < size; ++i)
        {
            SAME(done[i].load(), i < n ? 1 : 0, " completed runs of task ", i, " ", when);
            SAME(runs[i].load(), i < n ? 1 : 0, " runs of task ", i, " ", when);
        }
    }
    size_t size;
    std::unique_ptr<std::atomic<int>[]> runs, done;
};
int pause(hk::Rng &r)
{
    return r.coin(60) ? 0 : r.coin(60) ? 1 : static_cast<int>(r.in(2, 120));
}
}  // namespace

HK_CASE("T01", "posting_does_not_wait", 60)
{
    size_t threads = r.in(1, 4), n = r.in(1, 8);
    hk::note("threads ", threads, ", tasks ", n);
    std::atomic<int> go = 0, late = 0;
    Pool pool(threads);
    for (size_t i = 0; i < n; ++i)
        pool.post(
            [](std::atomic<int> *g, std::atomic<int> *l)
            {
                for (int k = 0; k < 3000 && !*g; ++k) usleep(1000);
                if (!*g) ++*l;
            },
            &go, &late);
    go = 1;
    pool.join();
    SAME(late.load(), 0, " tasks waited in vain for the thread that posts them");
}
HK_CASE("T01", "every_thread_takes_part", 150)
{
    // as many tasks as threads, each of which needs all the others to run
    int threads = r.in(1, 6);
    bool spread = r.coin();
    hk::note("threads ", threads);
    std::atomic<int> running = 0, alone = 0;
    Pool pool(threads);
    if (r.coin()) usleep(300);
    for (int i = 0; i < threads; ++i)
    {
        pool.post(
            [](std::atomic<int> *x, std::atomic<int> *l, int n)
            {
                ++*x;
                for (int k = 0; k < 3000 && *x < n; ++k) usleep(1000);
                if (*x < n) ++*l;
            },
            &running, &alone, threads);
        if (spread) usleep(r.in(0, 200));
    }
    for (int k = 0; k < 4000 && running < threads && alone == 0; ++k) usleep(1000);
    SAME(running.load(), threads, " tasks taken by the threads of the pool");
    pool.join();
}
HK_CASE("T01", "tasks_complete_before_join_returns", 400)
{
    size_t threads = r.in(1, 8), rounds = r.in(1, 4);
    hk::note("threads ", threads, ", rounds ", rounds);
    Pool pool(threads);
    for (size_t k = 0; k < rounds; ++k)
    {
        size_t n = r.in(0, 60);
        hk::note("tasks ", n);
        Tasks t(n);
        for (size_t i = 0; i < n; ++i)
        {
            pool.post([](Tasks *x, size_t j, int p) { x->run(j, p); }, &t, i, pause(r));
            if (r.coin(3)) usleep(100);
        }
        pool.join();
        t.check(n, "after join");
    }
}
HK_CASE("T01", "tasks_complete_before_the_pool_is_gone", 400)
{
    size_t threads = r.in(1, 8), n = r.in(0, 40);
    hk::note("threads ", threads, ", tasks ", n);
    Tasks t(n);
    {
        Pool pool(threads);
        if (r.coin(30)) usleep(200);
        for (size_t i = 0; i < n; ++i) pool.post([](Tasks *x, size_t j, int p) { x->run(j, p); }, &t, i, pause(r));
    }
    t.check(n, "after destruction");
}
HK_CASE("T01", "tasks_posted_by_tasks", 300)
{
    size_t threads = r.in(1, 6), n = r.in(1, 10), m = r.in(1, 6);
    hk::note("threads ", threads, ", tasks ", n, " with ", m, " tasks each");
    Tasks t(n * (m + 1));
    bool join = r.coin();
    {
        Pool pool(threads);
        auto inner = [](Tasks *x, size_t j, int p) { x->run(j, p); };
        auto outer = [inner](Pool *pl, Tasks *x, size_t i, size_t n, size_t m, int p)
        {
            for (size_t k = 0; k < m; ++k) pl->post(inner, x, n + i * m + k, p);
            x->run(i, p);
        };
        for (size_t i = 0; i < n; ++i) pool.post(outer, &pool, &t, i, n, m, pause(r));
        if (join)
        {
            pool.join();
            t.check(t.size, "after join");
        }
    }
    t.check(t.size, "after destruction");
}
HK_CASE("T01", "tasks_posted_by_several_threads", 200)
{
    size_t threads = r.in(1, 6), posters = r.in(2, 4), n = r.in(1, 25);
    hk::note("threads ", threads, ", ", posters, " posting threads with ", n, " tasks each");
    Tasks t(posters * n);
    Pool pool(threads);
    std::vector<std::thread> v;
    int p = pause(r);
    for (size_t k = 0; k < posters; ++k)
        v.emplace_back(
            [&, k]
            {
                for (size_t i = 0; i < n; ++i) pool.post([](Tasks *x, size_t j, int q) { x->run(j, q); }, &t, k * n + i, p);
                if (k % 2) pool.join();
            });
    for (auto &x : v) x.join();
    pool.join();
    t.check(t.size, "after join");
}
HK_CASE("T01", "arguments_reach_the_task", 100)
{
    Pool pool(r.in(1, 4));
    std::vector<int> got(8, 0);
    std::string s = "abc";
    size_t a = r.in(1, 1000);
    pool.post([](std::vector<int> &g, std::string x, size_t y) { g[0] = static_cast<int>(x.size() + y); }, std::ref(got), s, a);
    pool.post([](std::vector<int> &g, size_t y) { g[1] = static_cast<int>(y); }, std::ref(got), a + 1);
    s = "changed afterwards";
    pool.join();
    SAME(got[0], static_cast<int>(3 + a), " computed from the arguments given");
    SAME(got[1], static_cast<int>(a + 1), " computed from the arguments given");
}
HK_MAIN
