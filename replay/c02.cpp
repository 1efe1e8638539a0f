// RUN: -O1 -fsanitize=address,undefined | src/event.cpp src/thread_pool.cpp src/mutex.cpp src/sync_wait.cpp src/detail/task_self_deleting.cpp | 90
// RUN: -O1 -DRP_CHAOS -fsanitize-coverage=trace-pc-guard | src/event.cpp src/thread_pool.cpp src/mutex.cpp src/sync_wait.cpp src/detail/task_self_deleting.cpp | 120
// RUN: -O1 -fsanitize=thread | src/event.cpp src/thread_pool.cpp src/mutex.cpp src/sync_wait.cpp src/detail/task_self_deleting.cpp | 90
#include "rp.hpp"
#include <algorithm>
#include <coro/event.hpp>
#include <coro/thread_pool.hpp>
#include <memory>
#include <mutex>
using namespace rp;
int main()
{
    watchdog(15);
    scenario("single thread");
    for (int n = 0; n < 9; ++n)
        for (int mode = 0; mode < 4; ++mode)
        {
            bool fifo = mode & 1, ex = mode & 2;
            auto e = std::make_unique<coro::event>(); std::vector<int> order; std::atomic<int> cnt{0}; std::mutex mu;
            CHECK(!e->is_set(), "new event is set");
            auto w = [&](int i) -> fire { co_await *e; { std::lock_guard l(mu); order.push_back(i); } cnt.fetch_add(1); };
            for (int i = 0; i < n; ++i) w(i);
            CHECK(order.empty(), "waiter ran before set");
            e->reset(); CHECK(order.empty(), "reset released a waiter");
            auto pol = fifo ? coro::resume_order_policy::fifo : coro::resume_order_policy::lifo;
            if (ex) { auto tp = coro::thread_pool::make_unique(coro::thread_pool::options{.thread_count = 1}); e->set(tp, pol); for (int k = 0; k < 2000 && cnt.load() < n; ++k) usleep(1000); tp->shutdown(); }
            else e->set(pol);
            CHECK((int)order.size() == n, "%d waiters, %zu released (mode %d)", n, order.size(), mode);
            for (int i = 0; i < n; ++i) CHECK(order[i] == (fifo ? i : n - 1 - i), "wrong resume order, %d waiters, mode %d", n, mode);
            CHECK(e->is_set(), "event not set after set");
            w(100); CHECK((int)order.size() == n + 1, "await on a set event did not continue");
            e->set(pol); CHECK((int)order.size() == n + 1, "second set resumed somebody again");
            e->reset(); CHECK(!e->is_set(), "reset did not reset"); w(101); CHECK((int)order.size() == n + 1, "await after reset did not wait");
            e->set(); CHECK((int)order.size() == n + 2, "set after reset lost the waiter");
        }
    { coro::event e(true); CHECK(e.is_set(), "event(true) is not set"); int x = 0; auto w = [&]() -> fire { co_await e; ++x; }; w(); CHECK(x == 1, "event(true) blocks"); }
    {   // the last waiter destroys the event
        for (int n = 1; n < 5; ++n) { auto* e = new coro::event; int left = n; auto w = [&]() -> fire { co_await *e; if (--left == 0) delete e; }; for (int i = 0; i < n; ++i) w(); e->set(); CHECK(left == 0, "waiter lost"); }
    }
    g_chaos = true;
    auto end = std::chrono::steady_clock::now() + std::chrono::seconds(20);
    while (std::chrono::steady_clock::now() < end)
    {
        scenario("set against waiters on other threads");
        coro::event e; std::atomic<int> done{0}; int data = 0; int bad = 0;
        auto w = [&]() -> fire { co_await e; if (data != 42) bad = 1; done.fetch_add(1, std::memory_order::relaxed); };
        par(4, [&](int t) { if (t == 0) { data = 42; e.set(); } else for (int i = 0; i < 3; ++i) w(); });
        CHECK(!bad, "waiter does not see what the setter wrote");
        CHECK(done.load() == 9, "%d of 9 waiters released by a concurrent set", done.load());
        // reset racing with reset, set and waiters: at the end one more set must release everybody
        scenario("concurrent reset");
        coro::event r(true); std::atomic<int> in{0}, out{0};
        auto w2 = [&]() -> fire { in.fetch_add(1); co_await r; out.fetch_add(1); };
        par(4, [&](int t) { if (t < 2) { r.reset(); r.reset(); } else { for (int i = 0; i < 3; ++i) { w2(); } if (t == 3) r.set(); w2(); } });
        r.set();
        CHECK(in.load() == out.load(), "%d coroutines awaited, %d released after the final set", in.load(), out.load());
    }
    std::puts("no failing input found");
    _exit(0);
}
