// RUN: -O1 -fsanitize=address,undefined | src/event.cpp src/thread_pool.cpp src/mutex.cpp src/sync_wait.cpp src/detail/task_self_deleting.cpp | 60
// RUN: -O1 -DRP_CHAOS -fsanitize-coverage=trace-pc-guard | src/event.cpp src/thread_pool.cpp src/mutex.cpp src/sync_wait.cpp src/detail/task_self_deleting.cpp | 90
// RUN: -O1 -fsanitize=thread | src/event.cpp src/thread_pool.cpp src/mutex.cpp src/sync_wait.cpp src/detail/task_self_deleting.cpp | 90
#include "rp.hpp"
#include <coro/latch.hpp>
#include <coro/thread_pool.hpp>
using namespace rp;
int main()
{
    watchdog(15);
    scenario("counts");
    for (long c = -3; c < 12; ++c)
        for (long a = 0; a < 8; ++a)
            for (long b = 1; b < 8; ++b)
            {
                coro::latch l(c); int out = 0; auto w = [&]() -> fire { co_await l; ++out; };
                w(); long left = c;
                CHECK((out == 1) == (left <= 0) && l.is_ready() == (left <= 0), "latch(%ld): released %d", c, out);
                for (long d : {a, b, b, a, 1L, 40L, 1L})
                {
                    l.count_down(d); left -= d;
                    CHECK(l.is_ready() == (left <= 0), "latch(%ld) counted down to %ld: ready is %d", c, left, l.is_ready());
                    CHECK(out == (left <= 0), "latch(%ld) counted down to %ld: waiter released %d times", c, left, out);
                    CHECK(l.remaining() == (std::size_t)(left > 0 ? left : 0), "latch(%ld) counted down to %ld: remaining() is %zu", c, left, l.remaining());
                }
            }
    for (long c = 1; c < 6; ++c)
    {
        auto tp = coro::thread_pool::make_unique(coro::thread_pool::options{.thread_count = 1}); coro::latch l(c); std::atomic<int> out{0}; std::atomic<std::thread::id> id{};
        auto w = [&]() -> fire { co_await l; id = std::this_thread::get_id(); out.fetch_add(1); };
        w(); for (long k = 1; k < c; ++k) { l.count_down(tp); CHECK(!l.is_ready(), "released early"); }
        l.count_down(tp, 3); for (int k = 0; k < 2000 && !out.load(); ++k) usleep(1000);
        CHECK(out.load() == 1, "count_down(executor) did not release"); CHECK(id.load() != std::this_thread::get_id(), "waiter not resumed on the executor"); tp->shutdown();
    }
    g_chaos = true;
    auto end = std::chrono::steady_clock::now() + std::chrono::seconds(15);
    while (std::chrono::steady_clock::now() < end)
    {
        scenario("threads");
        coro::latch l(12); int data[4] = {}; std::atomic<int> out{0}; int bad = 0;
        auto w = [&]() -> fire { co_await l; for (int i = 0; i < 4; ++i) if (data[i] != 1) bad = 1; out.fetch_add(1, std::memory_order::relaxed); };
        par(5, [&](int t) { if (t == 4) { w(); w(); return; } data[t] = 1; l.count_down(1); l.count_down(2); });
        CHECK(out.load() == 2, "%d of 2 waiters released after all decrements", out.load()); CHECK(!bad, "waiter released before all decrements or not synchronised with them");
    }
    std::puts("no failing input found");
    _exit(0);
}
