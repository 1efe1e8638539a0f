// RUN: -O1 -fno-access-control -fsanitize=address,undefined -fno-sanitize=vptr -fsanitize-coverage=trace-pc-guard -DRP_CHAOS -DLIBCORO_FEATURE_NETWORKING | src/default_executor.cpp src/scheduler.cpp src/thread_pool.cpp src/event.cpp src/mutex.cpp src/sync_wait.cpp src/detail/task_self_deleting.cpp src/detail/pipe.cpp src/detail/timer_handle.cpp src/detail/io_notifier_epoll.cpp src/net/socket.cpp src/net/ip_address.cpp src/poll.cpp | 110
// RUN: -O1 -fno-access-control -fsanitize=thread -fsanitize-coverage=trace-pc-guard -DRP_CHAOS -DLIBCORO_FEATURE_NETWORKING | src/default_executor.cpp src/scheduler.cpp src/thread_pool.cpp src/event.cpp src/mutex.cpp src/sync_wait.cpp src/detail/task_self_deleting.cpp src/detail/pipe.cpp src/detail/timer_handle.cpp src/detail/io_notifier_epoll.cpp src/net/socket.cpp src/net/ip_address.cpp src/poll.cpp | 110
// Producers, the event loop and shutdown against each other: inline, on a pool and driven by hand.
#include "rp.hpp"
#include <coro/coro.hpp>
#include <deque>
#include <iostream>
#include <memory>
#include <mutex>
#include <set>
using namespace rp; using coro::task; using coro::scheduler; using namespace std::chrono_literals;
enum mode { INL, POOL, MANUAL, MANPOOL };
static const char* mname[] = {"inline", "on a pool", "manual, inline", "manual, on a pool"};
static std::set<std::thread::id> workers; static std::mutex wm; static std::atomic<int> started{0}, stopped{0};
static void worker() { std::lock_guard l(wm); workers.insert(std::this_thread::get_id()); }
static bool on_worker() { std::lock_guard l(wm); return workers.count(std::this_thread::get_id()) != 0; }
static std::unique_ptr<scheduler> mk(mode m)
{
    { std::lock_guard l(wm); workers.clear(); } started = 0; stopped = 0; bool pool = m == POOL || m == MANPOOL;
    return scheduler::make_unique({.thread_strategy = m == INL || m == POOL ? scheduler::thread_strategy_t::spawn : scheduler::thread_strategy_t::manual, .on_io_thread_start_functor = [pool] { ++started; if (!pool) worker(); }, .on_io_thread_stop_functor = [] { ++stopped; },
        .pool = {.thread_count = 2, .on_thread_start_functor = [pool](std::size_t) { if (pool) worker(); }, .on_thread_stop_functor = nullptr}, .execution_strategy = pool ? scheduler::execution_strategy_t::process_tasks_on_thread_pool : scheduler::execution_strategy_t::process_tasks_inline});
}
static std::atomic<long> live{0};
struct T { std::unique_ptr<long> p{new long(1)}; T() { ++live; } T(T&& o) noexcept : p(std::move(o.p)) { ++live; } ~T() { --live; } };
#define WHERE CHECK(on_worker(), "%s: work runs on a thread of its own choosing", g_what.load())
static task<void> body(T, std::atomic<int>& ran) { T l; WHERE; ran.fetch_add(1); co_return; }
static task<void> waits(T, scheduler& s, std::atomic<int>& ran, long ns) { T l; co_await s.yield_for(std::chrono::nanoseconds{ns}); WHERE; ran.fetch_add(1); co_return; }
struct job { struct promise_type { job get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; } std::suspend_always initial_suspend() noexcept { return {}; } std::suspend_always final_suspend() noexcept { return {}; } void return_void() {} void unhandled_exception() { std::terminate(); } }; std::coroutine_handle<promise_type> h; };
static job make(std::atomic<int>& ran) { WHERE; ran.fetch_add(1); co_return; }
static fire goes(scheduler& p, std::atomic<int>& st, bool yield, int again) { st = 1; try { if (yield) co_await p.yield(); else co_await p.schedule(); WHERE; while (again-- > 0) { co_await p.yield(); WHERE; } st = 2; } catch (std::runtime_error&) { st = 3; } }
static task<int> val(int k) { WHERE; if (k == 3) throw 5; co_return k; }
static void idle(scheduler& p, const char* d) { for (int k = 0; k < 4000 && !p.empty(); ++k) std::this_thread::sleep_for(1ms); CHECK(p.empty() && p.size() == 0, "%s: everything ran, size %zu", d, p.size()); }
static void basics(mode m)
{
    scenario(m == INL ? "basics, inline" : "basics, on a pool"); auto p = mk(m); CHECK(p->empty() && !p->is_shutdown(), "a new scheduler");
    std::atomic<int> r{0}; CHECK(!p->resume(nullptr), "a null handle is accepted"); auto j = make(r); CHECK(p->resume(j.h), "refused"); while (!r.load()) std::this_thread::yield(); idle(*p, "resumed"); CHECK(j.h.done(), "not done"); CHECK(!p->resume(j.h), "a finished coroutine is accepted"); idle(*p, "finished"); j.h.destroy();
    for (int k = 0; k < 6; ++k) { int got = -1; try { got = coro::sync_wait(p->schedule(val(k))); } catch (int x) { got = -x; } CHECK(got == (k == 3 ? -5 : k), "schedule(task) returned %d for %d", got, k); }
    coro::sync_wait([&]() -> task<void> { auto t = p->spawn_joinable(body(T{}, r)); co_await t; CHECK(r == 2, "joined before it ran"); }()); idle(*p, "joined");
    for (int n = 0; n < 8; ++n)
    {
        std::deque<std::atomic<int>> rr; std::vector<std::coroutine_handle<>> v, all; std::atomic<int> d{0}; long want = 0; for (int k = 0; k < n; ++k) { rr.emplace_back(0); if (rnd() % 3 == 0) v.push_back(nullptr); else { v.push_back(make(rr.back()).h); all.push_back(v.back()); ++want; } }
        std::size_t got = p->resume(v); CHECK((long)got == want, "resume(range) of %d handles, %ld of them valid, reports %zu", n, want, got); for (int k = 0; k < 4000; ++k) { long ran = 0; for (auto& x : rr) ran += x; if (ran == want) break; std::this_thread::sleep_for(1ms); } idle(*p, "range"); for (auto& x : rr) CHECK(x.load() <= 1, "ran %d times", x.load()); for (auto h : all) { CHECK(h.done(), "a handle of a range never ran"); h.destroy(); }
    }
    if (m == INL)
    {   // coroutines handed over in a row by one thread while the event loop is busy are run in that order
        std::atomic<bool> go{false}; std::vector<int> seq; auto blk = [](scheduler& s, std::atomic<bool>& g) -> fire { co_await s.schedule(); while (!g) std::this_thread::yield(); }; auto ord = [](scheduler& s, std::vector<int>& q, int k) -> fire { co_await s.schedule(); q.push_back(k); }; blk(*p, go); for (int k = 0; k < 9; ++k) ord(*p, seq, k); go = true; idle(*p, "order"); CHECK(seq.size() == 9, "%zu of 9 ran", seq.size()); for (int k = 0; k < 9; ++k) CHECK(seq[k] == k, "handed over as number %d, ran as number %d", seq[k], k);
    }
    p->shutdown(); p->shutdown(); CHECK(p->is_shutdown(), "not shut down"); CHECK(started == 1 && stopped == 1, "start functor %d, stop functor %d", started.load(), stopped.load()); bool threw = false; try { coro::sync_wait([](scheduler& s) -> task<void> { co_await s.schedule(); }(*p)); } catch (std::runtime_error&) { threw = true; } CHECK(threw, "schedule() after shutdown does not throw");
    CHECK(!p->spawn_detached(body(T{}, r)) && r == 2, "spawned after shutdown"); auto j2 = make(r); CHECK(!p->resume(j2.h), "accepted after shutdown"); std::vector<std::coroutine_handle<>> v{j2.h}; CHECK(p->resume(v) == 0, "range accepted after shutdown"); j2.h.destroy(); CHECK(p->empty() && p->size() == 0, "size %zu after shutdown", p->size()); CHECK(live == 0, "%ld values leaked", live.load());
}
int main()
{
    std::cerr.setstate(std::ios::failbit); watchdog(20); g_chaos = false; basics(INL); basics(POOL); g_chaos = true;
    {
        scenario("two hand over at the same time"); auto q = mk(INL); constexpr int R = 40000; static std::atomic<int> st[2][R]; std::atomic<int> met{0}; std::atomic<bool> stop{false}; auto t1 = std::chrono::steady_clock::now();
        par(2, [&](int i) { for (int k = 0; k < R; ++k) { if (i == 0) { stop = std::chrono::steady_clock::now() - t1 > 14s; if (!(k & 255)) g_beat.fetch_add(1); } met.fetch_add(1); while (met.load() < 2 * (k + 1)) {} if (stop) return; if (i == 1) { auto t2 = std::chrono::steady_clock::now() + std::chrono::nanoseconds{rnd() % 60000}; while (std::chrono::steady_clock::now() < t2) {} } goes(*q, st[i][k], k & 1, 0); while (st[0][k] < 2 || st[1][k] < 2) std::this_thread::yield(); } });
    }
    auto t0 = std::chrono::steady_clock::now();
    for (int round = 0; round < 1000000 && std::chrono::steady_clock::now() - t0 < 32s; ++round)
    {
        mode m = round & 1 ? POOL : INL; scenario(m == INL ? "producers and shutdown, inline" : "producers and shutdown, on a pool");
        {
            auto p = mk(m); constexpr int N = 3, M = 10; std::atomic<int> r[N][M]{}; int acc[N][M]{}; std::coroutine_handle<> hs[N][M]{}; int when = (int)(rnd() % 60); bool slow = round & 2;
            par(N + 1, [&](int i) {
                if (i == N) { for (int k = 0; k < when; ++k) std::this_thread::yield(); if (slow) std::this_thread::sleep_for(std::chrono::microseconds(rnd() % 300)); p->shutdown(); return; }
                for (int k = 0; k < M; ++k)
                {
                    if (slow && !(rnd() & 7)) std::this_thread::sleep_for(std::chrono::microseconds(rnd() % 100));
                    switch ((k + i) % 4)
                    {
                        case 0: acc[i][k] = p->spawn_detached(body(T{}, r[i][k])); break;
                        case 1: { auto j = make(r[i][k]); hs[i][k] = j.h; acc[i][k] = p->resume(j.h); break; }
                        case 2: { auto j = make(r[i][k]); hs[i][k] = j.h; std::vector<std::coroutine_handle<>> v{j.h}; acc[i][k] = (int)p->resume(v); break; }
                        case 3: goes(*p, r[i][k], rnd() & 1, (int)(rnd() % 3)); acc[i][k] = 2; break;
                    }
                }
            });
            for (int i = 0; i < N; ++i) for (int k = 0; k < M; ++k) { int v = r[i][k].load(); if (acc[i][k] == 2) CHECK(v == 2 || v == 3, "%s: co_await schedule() neither continues nor throws (%d)", g_what.load(), v); else CHECK(v == acc[i][k], "%s: accepted %d, ran %d times", g_what.load(), acc[i][k], v); }
            CHECK(p->size() == 0, "%s: shut down, size %zu", g_what.load(), p->size()); for (auto& x : hs) for (auto h : x) if (h) h.destroy(); p.reset(); CHECK(live == 0, "%s: %ld values leaked", g_what.load(), live.load());
        }
        {
            scenario("wake up"); auto q = mk(m); std::atomic<int> rr{0}; for (int k = 0; k < 20; ++k) { if (k & 1) std::this_thread::sleep_for(std::chrono::microseconds(rnd() % 200)); long b = rr.load(); CHECK(q->spawn_detached(body(T{}, rr)), "refused"); while (rr.load() == b) std::this_thread::yield(); } idle(*q, "wake up");
            par(3, [&](int) { for (int k = 0; k < 30; ++k) { std::atomic<int> st{0}; goes(*q, st, k & 1, 2); while (st != 2) { std::this_thread::yield(); CHECK(st != 3, "refused before shutdown"); } } });
        }
        {
            scenario(m == INL ? "shutdown waits for events, inline" : "shutdown waits for events, on a pool"); auto q = mk(m); std::atomic<int> rr{0}; int n = rnd() % 4; for (int k = 0; k < n; ++k) CHECK(q->spawn_detached(waits(T{}, *q, rr, rnd() % 3000000)), "refused"); std::atomic<int> late{0}; struct LW { static fire go(scheduler& s, std::atomic<int>& r, std::atomic<int>& st) { co_await s.schedule(); st = 1; auto t1 = std::chrono::steady_clock::now() + 300us; while (std::chrono::steady_clock::now() < t1) {} co_await s.yield_for(200us); ++r; } }; bool lw = rnd() & 1; if (lw) { std::atomic<int>* st = new std::atomic<int>{0}; LW::go(*q, late, *st); while (!*st) std::this_thread::yield(); delete st; } std::atomic<bool> fin{false}; if (!lw) { std::size_t z = 1; while (rr < n) { std::size_t before = rr; z = q->size(); CHECK(z > 0 || rr > (int)before || rr == n, "%zu of %d tasks have not ended, size 0", (std::size_t)n - before, n); } }
            q->shutdown(); CHECK(late == lw, "%s: a task that was running when shutdown() was called, and then waited for a timer, did not end before shutdown() returned", g_what.load()); CHECK(rr == n, "%s: shutdown returned, %d of %d tasks ran", g_what.load(), rr.load(), n); CHECK(started == 1 && stopped == 1, "start functor %d, stop functor %d", started.load(), stopped.load()); CHECK(q->size() == 0, "size %zu", q->size()); q.reset(); CHECK(live == 0, "%ld values leaked", live.load()); (void)fin;
        }
        if (m == INL)
        {
            scenario("process_events() beside a dedicated event loop"); for (int n = 0; n < 8; ++n) { auto q = mk(m); std::atomic<int> st{0}; goes(*q, st, n & 1, 0); for (int k = 0; k < 20; ++k) q->process_events(0ms); while (st != 2) { CHECK(st != 3, "refused before shutdown"); std::this_thread::yield(); } }
        }
        if (m == POOL)
        {
            scenario("size while a task starts to wait"); auto q = mk(m); struct L { static fire go(scheduler& s, std::atomic<int>& r, std::chrono::nanoseconds d) { co_await s.schedule(); r = 1; co_await s.yield_for(d); r = 2; } static fire again(scheduler& s, std::atomic<int>& r) { co_await s.schedule(); for (int k = 0; k < 40; ++k) co_await s.yield_for(200us); r = 1; } };
            for (int n = 0; n < 3; ++n) { std::atomic<int> r{0}; auto t1 = std::chrono::steady_clock::now(); L::go(*q, r, 12ms); for (;;) { bool e = q->empty(); if (std::chrono::steady_clock::now() - t1 > 8ms) break; CHECK(!e, "a task that has not ended starts to wait for a timer, the scheduler is empty()"); } while (r != 2) std::this_thread::yield(); idle(*q, "waited"); }
            scenario("size while a task continues"); std::atomic<int> r{0}; L::again(*q, r);      // one look can miss a task that the event loop hands to the pool meanwhile, two in a row cannot: only a task that waits again meanwhile
            for (int zeros = 0; r == 0;) { zeros = q->m_size.load() == 0 && q->m_thread_pool->size() == 0 && q->m_size.load() == 0 && q->m_thread_pool->size() == 0 ? zeros + 1 : 0; if (zeros >= 3) { CHECK(r == 1, "a task that has not ended is not counted"); } }
        }
        if (round % 4 == 0)
        {
            bool pool = round & 4; scenario(pool ? "driven by hand, on a pool" : "driven by hand"); auto q = mk(pool ? MANPOOL : MANUAL); constexpr int N = 2, M = 12; std::atomic<int> r[N][M]{}; std::atomic<int> prod{0}; if (!pool) worker(); std::atomic<int> inside{0}; auto excl = [](scheduler& s, std::atomic<int>& in, std::atomic<int>& st, bool pool) -> fire { st = 1; for (int k = 0; k < 3; ++k) { co_await s.yield(); if (!pool) { CHECK(in.fetch_add(1) == 0, "two threads process events at a time"); in.fetch_sub(1); } } st = 2; }; int plain = 0;
            auto shared = [](scheduler& s, int& plain, std::atomic<int>& st, bool pool) -> fire { co_await s.schedule(); if (!pool) ++plain; st = 2; };
            par(N + 3, [&](int i) {
                if (i >= N) { while (prod < N || !q->empty()) { q->process_events(0ms); } return; }
                for (int k = 0; k < M; ++k) { if (k & 1) excl(*q, inside, r[i][k], pool); else shared(*q, plain, r[i][k], pool); if (!(rnd() & 3)) std::this_thread::sleep_for(std::chrono::microseconds(rnd() % 100)); }
                ++prod;
            });
            for (int k = 0; k < 4000 && !q->empty(); ++k) q->process_events(0ms);
            for (auto& x : r) for (auto& y : x) CHECK(y == 2, "driven by hand: a coroutine stops (%d)", y.load()); CHECK(pool || plain == N * M / 2, "%d of %d ran", plain, N * M / 2);
        }
        if (round % 8 == 1)
        {
            scenario("an event after the pool is shut down"); auto q = mk(MANPOOL); std::atomic<int> rr{0}; struct L { static task<void> go(scheduler& s, std::atomic<int>& r) { co_await s.yield_for(1ms); r = 1; } }; CHECK(q->spawn_detached(L::go(*q, rr)), "refused"); while (q->m_size < 2 && rr == 0) std::this_thread::yield(); q->shutdown(); for (int k = 0; k < 3000 && rr == 0; ++k) { q->process_events(1ms); } CHECK(rr == 1, "the task whose time came after the pool was shut down never continues"); CHECK(q->size() == 0, "size %zu", q->size());
        }
    }
    std::printf("no failing input found\n"); std::fflush(stdout); std::exit(0);
}
