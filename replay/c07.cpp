// RUN: -O1 -fsanitize=address,undefined | src/event.cpp src/mutex.cpp src/sync_wait.cpp src/thread_pool.cpp src/detail/task_self_deleting.cpp | 80
// RUN: -O1 -DRP_CHAOS -fsanitize-coverage=trace-pc-guard | src/event.cpp src/mutex.cpp src/sync_wait.cpp src/thread_pool.cpp src/detail/task_self_deleting.cpp | 80
// RUN: -O1 -fsanitize=thread | src/event.cpp src/mutex.cpp src/sync_wait.cpp src/thread_pool.cpp src/detail/task_self_deleting.cpp | 80
#include "rp.hpp"
#include <coro/shared_mutex.hpp>
#include <coro/thread_pool.hpp>
#include <coro/sync_wait.hpp>
#include <deque>
#include <string>
using namespace rp;
struct exec
{
    struct op { bool await_ready() noexcept { return true; } void await_suspend(std::coroutine_handle<>) noexcept {} void await_resume() noexcept {} };
    std::deque<std::coroutine_handle<>> q; bool now{true};
    auto schedule() { return op{}; } bool spawn_detached(coro::task<void>&&) { return false; } coro::task<void> spawn_joinable(coro::task<void>&&) { co_return; }
    auto yield() { return op{}; } bool resume(std::coroutine_handle<> h) { if (now) h.resume(); else q.push_back(h); return true; } std::size_t size() { return 0; } bool empty() { return true; } void shutdown() {}
    void run() { while (!q.empty()) { auto h = q.front(); q.pop_front(); h.resume(); } }
};
using M = coro::shared_mutex<exec>;
void sequential(bool now)
{
    scenario("sequential");
    for (int len = 1; len <= 9; ++len)
    {
        long total = 1; for (int i = 0; i < len; ++i) total *= 8;
        for (long code = 0; code < total; code += 1 + (len > 5 ? (long)(rnd() % (len > 7 ? 9999 : len > 6 ? 999 : 67)) : 0))
        {
            g_beat.fetch_add(1, std::memory_order::relaxed);
            auto e = std::make_unique<exec>(); e->now = now; M m(e); std::string ops; int R = 0, W = 0;              // actual holders
            std::deque<std::pair<bool, int>> wait; int mr = 0, mw = 0, id = 0; std::vector<int> got, exp; // model
            auto grant = [&] { if (mr || mw || wait.empty()) return; if (wait[0].first) { ++mw; exp.push_back(wait[0].second); wait.pop_front(); } else while (!wait.empty() && !wait[0].first) { ++mr; exp.push_back(wait[0].second); wait.pop_front(); } };
            auto rd = [&](int k) -> fire { co_await m.lock_shared(); ++R; got.push_back(k); };
            auto wr = [&](int k) -> fire { co_await m.lock(); ++W; got.push_back(k); };
            auto ur = [&]() -> fire { --R; co_await m.unlock_shared(); }; auto uw = [&]() -> fire { --W; co_await m.unlock(); };
            bool thrown = false;
            auto sc = [&](bool x, bool th) -> fire { auto t = [](bool th) -> coro::task<void> { if (th) throw 1; co_return; }(th); try { if (x) co_await m.scoped_lock(std::move(t)); else co_await m.scoped_lock_shared(std::move(t)); CHECK(!th, "exception lost"); } catch (int) { thrown = true; } };
            for (int i = 0; i < len; ++i)
            {
                int o = (code >> (3 * i)) & 7; ops += "rwabRWuU"[o]; bool freeS = !mw && wait.empty(), freeX = !mw && !mr;
                switch (o)
                {
                    case 0: ++id; if (freeS) { ++mr; exp.push_back(id); } else wait.push_back({false, id}); rd(id); break;
                    case 1: ++id; if (freeX && wait.empty()) { ++mw; exp.push_back(id); } else wait.push_back({true, id}); wr(id); break;
                    case 2: { bool b = m.try_lock_shared(); CHECK(b == freeS, "script %s: try_lock_shared returned %d", ops.c_str(), b); if (b) { ++mr; ++R; } break; }
                    case 3: { bool b = m.try_lock(); CHECK(b == freeX, "script %s: try_lock returned %d", ops.c_str(), b); if (b) { ++mw; ++W; } break; }
                    case 4: case 5: if (freeX && wait.empty()) { sc(o == 4, i & 1); CHECK(thrown == bool(i & 1), "script %s: exception", ops.c_str()); thrown = false; } break;
                    default: if (mr) { --mr; grant(); ur(); } else if (mw) { --mw; grant(); uw(); }
                }
                e->run();
                CHECK(R == mr && W == mw, "script %s: %d readers and %d writers hold the lock, expected %d and %d", ops.c_str(), R, W, mr, mw);
                CHECK(got.size() == exp.size(), "script %s: grants", ops.c_str()); CHECK(got == exp, "script %s: waiters granted out of order", ops.c_str());
            }
            while (mr || mw) { if (mr) { --mr; grant(); ur(); } else { --mw; grant(); uw(); } e->run(); CHECK(R == mr && W == mw, "script %s then releases: %d readers and %d writers, expected %d and %d", ops.c_str(), R, W, mr, mw); }
            CHECK(m.try_lock(), "script %s: still locked after the last release", ops.c_str());
        }
    }
}
void threads()
{
    scenario("threads"); static auto e = coro::thread_pool::make_unique(coro::thread_pool::options{.thread_count = 2});
    auto m = std::make_unique<coro::shared_mutex<coro::thread_pool>>(e); std::atomic<int> r{0}, w{0}, done{0}; long data = 0, shadow = 0; constexpr int N = 6;
    auto rd = [&]() -> fire { for (int i = 0; i < N; ++i) { co_await m->lock_shared(); r.fetch_add(1); CHECK(w.load() == 0, "a reader runs while a writer holds the lock"); CHECK(data == shadow, "torn data"); r.fetch_sub(1); co_await m->unlock_shared(); } done.fetch_add(1); };
    auto wr = [&]() -> fire { for (int i = 0; i < N; ++i) { co_await m->lock(); CHECK(w.fetch_add(1) == 0, "two writers"); CHECK(r.load() == 0, "a writer runs while a reader holds the lock"); ++data; ++shadow; w.fetch_sub(1); co_await m->unlock(); } done.fetch_add(1); };
    auto tr = [&] { for (int i = 0; i < N; ++i) { if (m->try_lock_shared()) { r.fetch_add(1); CHECK(w.load() == 0, "a reader runs while a writer holds the lock"); r.fetch_sub(1); [&]() -> fire { co_await m->unlock_shared(); }(); } if (m->try_lock()) { CHECK(w.fetch_add(1) == 0 && r.load() == 0, "try_lock granted while held"); w.fetch_sub(1); [&]() -> fire { co_await m->unlock(); }(); } } };
    par(5, [&](int t) { if (t < 2) rd(); else if (t < 4) wr(); else tr(); });
    for (int k = 0; k < 5000 && done.load() != 4; ++k) usleep(1000);
    CHECK(done.load() == 4, "%d of 4 coroutines finished: a waiter is lost", done.load());
}
int main()
{
    watchdog(20); sequential(true); sequential(false); g_chaos = true;
    auto end = std::chrono::steady_clock::now() + std::chrono::seconds(25);
    while (std::chrono::steady_clock::now() < end) threads();
    std::puts("no failing input found"); std::fflush(stdout); _exit(0);
}
