// RUN: -O1 -fsanitize=address,undefined | src/mutex.cpp src/sync_wait.cpp | 60
// RUN: -O1 -DRP_CHAOS -fsanitize-coverage=trace-pc-guard | src/mutex.cpp src/sync_wait.cpp | 120
// RUN: -O1 -fsanitize=thread | src/mutex.cpp src/sync_wait.cpp | 90
#include "rp.hpp"
#include <coro/mutex.hpp>
#include <coro/sync_wait.hpp>
#include <coro/task.hpp>
using namespace rp;
static bool freed(coro::mutex& m) { bool b = m.try_lock(); if (b) m.unlock(); return b; }
int main()
{
    watchdog(15);
    scenario("single thread hand-off");
    for (int n = 0; n < 12; ++n)
    {
        coro::mutex m; std::vector<int> order; int inside = 0;
        CHECK(m.try_lock(), "try_lock fails on a free mutex");
        CHECK(!m.try_lock(), "try_lock succeeds on a held mutex");
        auto w = [&](int i) -> fire { co_await m.lock(); CHECK(inside++ == 0, "two owners"); order.push_back(i); --inside; m.unlock(); };
        for (int i = 0; i < n; ++i) w(i);
        CHECK(order.empty(), "a waiter ran while the lock was held");
        m.unlock();
        CHECK((int)order.size() == n, "%d waiters queued, %zu resumed", n, order.size());
        CHECK(freed(m), "mutex stays locked after all waiters released it (%d waiters)", n);
        bool threw = false; try { m.unlock(); } catch (const std::runtime_error&) { threw = true; }
        CHECK(threw, "unlock of an unlocked mutex did not throw");
        CHECK(freed(m), "unlock of an unlocked mutex changed its state");
    }
    scenario("waiters arriving during the hand-over");
    for (int rounds = 0; rounds < 4; ++rounds)
    {
        coro::mutex m; int done = 0;
        auto late = [&]() -> fire { auto l = co_await m.scoped_lock(); ++done; };
        auto w = [&](int k) -> fire { co_await m.lock(); for (int i = 0; i < k; ++i) late(); m.unlock(); ++done; };
        (void)m.try_lock(); w(rounds); w(0); w(rounds + 1); m.unlock();
        CHECK(done == 3 + rounds + rounds + 1, "waiters lost: %d resumed", done);
        CHECK(freed(m), "mutex left locked");
    }
    scenario("scoped_lock ownership");
    for (int c = 0; c < 16; ++c)
    {
        coro::mutex a, b;
        auto get = [](coro::mutex& m) { return coro::sync_wait([](coro::mutex& m) -> coro::task<coro::scoped_lock> { co_return co_await m.scoped_lock(); }(m)); };
        {
            auto l = get(a); CHECK(!a.try_lock(), "scoped_lock does not hold the mutex");
            if (c & 1) { auto l2 = std::move(l); CHECK(!a.try_lock(), "moved scoped_lock lost the mutex"); l.unlock(); CHECK(!a.try_lock(), "moved-from scoped_lock unlocked"); if (c & 2) { l2.unlock(); l2.unlock(); CHECK(freed(a), "unlock did not release"); } }
            else if (c & 4) { auto l2 = get(b); l2 = std::move(l); CHECK(freed(b), "move assignment did not release the lock it replaced"); CHECK(!a.try_lock(), "move assignment lost the lock"); }
            else if (c & 8) { auto& r = l; l = std::move(r); CHECK(!a.try_lock(), "self move assignment released the lock"); }
        }
        CHECK(freed(a) && freed(b), "scoped_lock destruction left a mutex locked");
    }
    g_chaos = true;
    scenario("threads");
    auto end = std::chrono::steady_clock::now() + std::chrono::seconds(20);
    while (std::chrono::steady_clock::now() < end)
    {
        coro::mutex m; uint64_t counter = 0, prot = 0; int inside = 0; constexpr int T = 4, N = 150; std::atomic<int> tl{0};
        par(T, [&](int t) {
            for (int i = 0; i < N; ++i)
                coro::sync_wait([](coro::mutex& m, uint64_t& counter, uint64_t& prot, int& inside, int i, std::atomic<int>& tl) -> coro::task<void> {
                    if (i % 5 == 4) { if (!m.try_lock()) { tl.fetch_add(1, std::memory_order::relaxed); co_return; } }
                    else co_await m.lock();
                    if (inside++ != 0) FAIL("two coroutines own the mutex");
                    ++counter; prot = counter * 3;
                    if (prot != counter * 3) FAIL("two coroutines own the mutex");
                    --inside; m.unlock();
                }(m, counter, prot, inside, i, tl));
        });
        CHECK(counter + tl.load() == T * N, "critical sections executed: %llu", (unsigned long long)counter);
        CHECK(freed(m), "mutex left locked");
        scenario("threads");
    }
    std::puts("no failing input found");
    _exit(0);
}
