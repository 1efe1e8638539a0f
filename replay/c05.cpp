// RUN: -O1 -fsanitize=address,undefined | src/event.cpp src/mutex.cpp src/sync_wait.cpp src/thread_pool.cpp src/detail/task_self_deleting.cpp | 90
// RUN: -O1 -DRP_CHAOS -fsanitize-coverage=trace-pc-guard | src/event.cpp src/mutex.cpp src/sync_wait.cpp src/thread_pool.cpp src/detail/task_self_deleting.cpp | 90
// RUN: -O1 -fsanitize=thread | src/event.cpp src/mutex.cpp src/sync_wait.cpp src/thread_pool.cpp src/detail/task_self_deleting.cpp | 90
#include "rp.hpp"
#include <coro/queue.hpp>
#include <coro/thread_pool.hpp>
#include <deque>
#include <mutex>
#include <set>
using namespace rp;
using PR = coro::queue_produce_result; using CR = coro::queue_consume_result;
struct elem
{
    long v{-1}; bool moved{false};
    elem() = default; explicit elem(long x) : v(x) {}
    elem(const elem& o) : v(o.v) {} elem(elem&& o) noexcept : v(o.v) { o.v = -7; o.moved = true; }
    elem& operator=(const elem& o) { v = o.v; return *this; } elem& operator=(elem&& o) noexcept { long x = o.v; o.v = -7; o.moved = true; v = x; moved = false; return *this; }
};
struct inline_exec
{
    struct op { bool await_ready() noexcept { return true; } void await_suspend(std::coroutine_handle<>) noexcept {} void await_resume() noexcept {} };
    std::function<void()> on_yield;
    auto schedule() { return op{}; } bool spawn_detached(coro::task<void>&&) { return false; } coro::task<void> spawn_joinable(coro::task<void>&&) { co_return; }
    auto yield() { if (on_yield) on_yield(); return op{}; } bool resume(std::coroutine_handle<> h) { h.resume(); return true; } std::size_t size() { return 0; } bool empty() { return true; } void shutdown() {}
};
using Q = coro::queue<elem>;
// every script of operations against a FIFO oracle, single threaded
void sequential()
{
    scenario("sequential");
    for (int len = 1; len <= 6; ++len)
    {
        long total = 1; for (int i = 0; i < len; ++i) total *= 8;
        for (long code = 0; code < total; code += 1 + (len > 4 ? (long)(rnd() % 13) : 0))
        {
            g_beat.fetch_add(1, std::memory_order::relaxed);
            auto q = std::make_unique<Q>(); std::deque<long> model; long next = 100; int waiting = 0; bool stop = false, drain = false;
            std::vector<long> got; int stopped = 0, expstopped = 0; std::vector<std::pair<bool, long>> dummy;
            std::multiset<long> exp, out; int refused = 0, exprefused = 0;
            auto pop = [&]() -> fire { auto r = co_await q->pop(); if (r) out.insert(r->v); else { if (r.error() != CR::stopped) FAIL("pop reports %d", (int)r.error()); ++stopped; } };
            auto chk = [&](PR r) { if (r == PR::stopped) ++refused; };
            auto p0 = [&](long x) -> fire { elem e(x); chk(co_await q->push(e)); CHECK(e.v == x, "push(const&) modified its argument"); };
            auto p1 = [&](long x) -> fire { elem e(x); chk(co_await q->push(std::move(e))); };
            auto p2 = [&](long x) -> fire { chk(co_await q->emplace(x)); };
            auto sd = [&]() -> fire { co_await q->shutdown(); };
            std::string ops;
            for (int i = 0; i < len; ++i)
            {
                int o = (code >> (3 * i)) & 7; ops += "pcePtxs?"[o];
                auto accept = [&](long x) { if (stop) { ++exprefused; return; } if (waiting) { --waiting; exp.insert(x); } else model.push_back(x); };
                switch (o)
                {
                    case 0: { long x = next++; accept(x); p0(x); break; }
                    case 1: { long x = next++; accept(x); p1(x); break; }
                    case 2: { long x = next++; accept(x); p2(x); break; }
                    case 3: case 7: if (stop) ++expstopped; else if (!model.empty()) { exp.insert(model.front()); model.pop_front(); } else ++waiting; pop(); break;
                    case 4: case 5:
                    {
                        auto r = q->try_pop();
                        if (stop) CHECK(!r && r.error() == CR::stopped, "script %s: try_pop on a stopped queue", ops.c_str());
                        else if (model.empty()) CHECK(!r && r.error() == CR::empty, "script %s: try_pop on an empty queue", ops.c_str());
                        else { CHECK(r && r->v == model.front(), "script %s: try_pop returned %ld, expected %ld", ops.c_str(), r ? r->v : -1, model.front()); model.pop_front(); }
                        break;
                    }
                    default: if (!stop) { stop = true; expstopped += waiting; waiting = 0; model.clear(); } sd(); break;
                }
                CHECK(out == exp, "script %s: elements delivered differ from elements accepted in order", ops.c_str());
                CHECK(stopped == expstopped && refused == exprefused, "script %s: %d poppers told stopped (expected %d), %d pushes refused (expected %d)", ops.c_str(), stopped, expstopped, refused, exprefused);
                CHECK(q->is_shutdown() == stop, "script %s: is_shutdown", ops.c_str());
            }
            expstopped += waiting; q.reset(); CHECK(stopped == expstopped, "script %s: destructor released %d of %d", ops.c_str(), stopped, expstopped);
        }
    }
    // draining: everything accepted is still delivered, in order, before the queue stops
    for (int n = 0; n < 6; ++n)
        for (int k = 0; k < 4; ++k)
        {
            Q q; auto e = std::make_unique<inline_exec>(); int got = 0, stopped = 0; bool done = false;
            auto push = [&](long x) -> fire { elem el(x); bool sh = q.is_shutdown(); auto r = k == 1 ? co_await q.push(el) : k == 2 ? co_await q.emplace(x) : co_await q.push(elem(x)); CHECK((r == PR::stopped) == sh, "an element is %s while draining", r == PR::stopped ? "refused" : "accepted"); };
            auto pop = [&]() -> fire { auto r = co_await q.pop(); if (r) { CHECK(r->v == got, "drain out of order"); ++got; } else ++stopped; };
            for (int i = 0; i < n; ++i) push(i);
            int tick = 0;
            e->on_yield = [&] { push(99); if (tick++ % (k + 1) == 0) { if (k & 1) pop(); else { auto r = q.try_pop(); if (r) { CHECK(r->v == got, "drain out of order"); ++got; } } } };
            auto dr = [&]() -> fire { co_await q.shutdown_drain(e); done = true; }; dr();
            CHECK(done && got == n, "drained %d of %d elements", got, n); auto r = q.try_pop(); CHECK(!r && r.error() == CR::stopped, "not stopped after drain");
            pop(); CHECK(stopped == 1, "pop after drain");
        }
    // immediate shutdown while draining discards and stops at once
    { Q q; auto e = std::make_unique<inline_exec>(); auto push = [&](long x) -> fire { (void)co_await q.push(elem(x)); }; push(1); push(2); auto sd = [&]() -> fire { co_await q.shutdown(); }; bool done = false;
      e->on_yield = [&] { sd(); }; auto dr = [&]() -> fire { co_await q.shutdown_drain(e); done = true; }; dr(); CHECK(done, "drain"); auto r = q.try_pop(); CHECK(!r && r.error() == CR::stopped, "shutdown while draining did not stop the queue"); }
}
void threads(bool drain, bool both)
{
    scenario(drain ? "threads with drain" : "threads with shutdown");
    auto q = std::make_unique<Q>(); static auto e = coro::thread_pool::make_unique(coro::thread_pool::options{.thread_count = 1});
    constexpr int P = 2, N = 4; std::atomic<int> accepted{0}, popped{0}, begun{0}, told{0}, sdone{0}; std::mutex m; std::vector<long> out;
    auto push = [&](long x) -> fire { if (co_await q->push(elem(x)) == PR::produced) accepted.fetch_add(1); };
    auto pop = [&]() -> fire { begun.fetch_add(1); auto r = co_await q->pop(); if (r) { std::scoped_lock l(m); out.push_back(r->v); } else told.fetch_add(1); popped.fetch_add(1); };
    auto sd = [&]() -> fire { co_await q->shutdown(); auto r = q->try_pop(); CHECK(!r && (r.error() == CR::stopped || r.error() == CR::try_lock_failure), "shutdown() returned but the queue is not stopped"); sdone.fetch_add(1); };
    auto dr = [&]() -> fire { co_await q->shutdown_drain(e); sdone.fetch_add(1); };
    std::atomic<bool> fin{false};
    par(5, [&](int t) {
        if (t < P) for (int i = 0; i < N; ++i) push(t * 100 + i);
        else if (t == 2) for (int i = 0; i < N; ++i) pop();
        else if (t == 3) { for (int i = 0; i < 40 && !fin.load(); ++i) { auto r = q->try_pop(); if (r) { std::scoped_lock l(m); out.push_back(r->v); } } if (drain) while (sdone.load() < 1 + both) { auto r = q->try_pop(); if (r) { std::scoped_lock l(m); out.push_back(r->v); } else if (r.error() == CR::stopped) break; } }
        else { for (unsigned i = rnd() % 300; i; --i) __asm__ volatile(""); if (both) { std::thread a([&] { sd(); }); dr(); a.join(); } else if (drain) dr(); else sd(); fin = true; }
    });
    for (int k = 0; k < 5000 && sdone.load() != 1 + both; ++k) usleep(1000);
    CHECK(sdone.load() == 1 + both, "shutdown did not complete");
    CHECK(begun.load() == popped.load(), "%d poppers are still waiting after shutdown", begun.load() - popped.load());
    std::scoped_lock l(m); std::set<long> s(out.begin(), out.end());
    CHECK(s.size() == out.size(), "an element was delivered twice"); CHECK((int)out.size() <= accepted.load(), "more elements delivered than accepted");
    for (long v : out) CHECK(v >= 0 && v < 200 && v % 100 < N, "element %ld was never pushed", v);
    if (drain && !both) CHECK((int)out.size() == accepted.load(), "drained %zu of %d accepted elements", out.size(), accepted.load());
}
int main()
{
    watchdog(20); sequential(); g_chaos = true;
    auto end = std::chrono::steady_clock::now() + std::chrono::seconds(25);
    while (std::chrono::steady_clock::now() < end) { threads(false, false); threads(true, false); threads(true, true); }
    std::puts("no failing input found"); std::fflush(stdout); _exit(0);
}
