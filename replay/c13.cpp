// RUN: -O1 -fsanitize=address,undefined -fsanitize-coverage=trace-pc-guard -DRP_CHAOS | src/event.cpp src/thread_pool.cpp src/mutex.cpp src/sync_wait.cpp src/detail/task_self_deleting.cpp | 120
// RUN: -O1 -fsanitize=thread -fsanitize-coverage=trace-pc-guard -DRP_CHAOS | src/event.cpp src/thread_pool.cpp src/mutex.cpp src/sync_wait.cpp src/detail/task_self_deleting.cpp | 120
#include "rp.hpp"
#include <coro/sync_wait.hpp>
#include <coro/thread_pool.hpp>
#include <coro/when_all.hpp>
#include <deque>
#include <memory>
#include <mutex>
#include <set>
using namespace rp; using coro::task; using coro::thread_pool;
static std::set<std::thread::id> workers; static std::mutex wm;
static thread_pool::options opt(uint32_t n) { return {.thread_count = n, .on_thread_start_functor = [](std::size_t) { std::lock_guard l(wm); workers.insert(std::this_thread::get_id()); }, .on_thread_stop_functor = nullptr}; }
static bool on_worker() { std::lock_guard l(wm); return workers.count(std::this_thread::get_id()) != 0; }
static std::atomic<long> live{0};
struct T { std::unique_ptr<long> p{new long(1)}; T() { ++live; } T(T&& o) noexcept : p(std::move(o.p)) { ++live; } ~T() { --live; } };
static task<void> body(T, std::atomic<int>& ran) { T l; CHECK(on_worker(), "work runs on a thread that is not one of the pool"); ran.fetch_add(1); co_return; }
// a coroutine that is handed to the pool by its handle
struct job { struct promise_type { job get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; } std::suspend_always initial_suspend() noexcept { return {}; } std::suspend_always final_suspend() noexcept { return {}; } void return_void() {} void unhandled_exception() { std::terminate(); } }; std::coroutine_handle<promise_type> h; };
static job make(std::atomic<int>& ran) { CHECK(on_worker(), "work runs on a thread that is not one of the pool"); ran.fetch_add(1); co_return; }
static fire goes(thread_pool& p, std::atomic<int>& st, bool yield, int again) { st = 1; try { if (yield) co_await p.yield(); else co_await p.schedule(); CHECK(on_worker(), "continues on a thread that is not one of the pool"); while (again-- > 0) co_await p.yield(); st = 2; } catch (std::runtime_error&) { st = 3; } }
static task<int> val(int k) { CHECK(on_worker(), "work runs on a thread that is not one of the pool"); if (k == 3) throw 5; co_return k; }
static void idle(thread_pool& p, const char* d) { for (int k = 0; k < 4000 && !p.empty(); ++k) std::this_thread::sleep_for(std::chrono::milliseconds(1)); CHECK(p.empty() && p.size() == 0, "%s: everything ran, size %zu", d, p.size()); CHECK(p.queue_empty(), "%s: queue not empty", d); }
int main()
{
    g_chaos = true; watchdog(20);
    { scenario("basics"); auto p = thread_pool::make_unique(opt(2)); CHECK(p->thread_count() == 2 && p->empty() && !p->is_shutdown(), "a new pool");
      std::atomic<int> r{0}; CHECK(!p->resume(nullptr), "a null handle is accepted"); auto j = make(r); CHECK(p->resume(j.h), "refused"); while (!r.load()) std::this_thread::yield(); while (!p->empty()) std::this_thread::yield(); CHECK(j.h.done(), "not done"); CHECK(!p->resume(j.h), "a finished coroutine is accepted"); idle(*p, "finished"); j.h.destroy();
      for (int k = 0; k < 6; ++k) { int got = -1; try { got = coro::sync_wait(p->schedule(val(k))); } catch (int x) { got = -x; } CHECK(got == (k == 3 ? -5 : k), "schedule(task) returned %d for %d", got, k); }
      coro::sync_wait([&]() -> task<void> { auto t = p->spawn_joinable(body(T{}, r)); co_await t; CHECK(r == 2, "joined before it ran"); }()); idle(*p, "joined");
      p->shutdown(); p->shutdown(); CHECK(p->is_shutdown(), "not shut down"); bool threw = false; try { coro::sync_wait([&]() -> task<void> { co_await p->schedule(); }()); } catch (std::runtime_error&) { threw = true; } CHECK(threw, "schedule() after shutdown does not throw"); CHECK(!p->spawn_detached(body(T{}, r)) && r == 2, "spawned after shutdown"); auto j2 = make(r); CHECK(!p->resume(j2.h), "accepted after shutdown"); std::vector<std::coroutine_handle<>> v{j2.h}; CHECK(p->resume(v) == 0, "range accepted after shutdown"); j2.h.destroy(); CHECK(p->empty() && p->queue_empty() && p->size() == 0, "size %zu after shutdown", p->size()); CHECK(live == 0, "%ld leaked", live.load()); }
    for (int n = 0; n < 12; ++n)
    {
        scenario("range"); auto p = thread_pool::make_unique(opt(1 + n % 4)); std::deque<std::atomic<int>> r; std::vector<std::coroutine_handle<>> v, all; std::atomic<int> d{0}; long want = 0; auto fin = make(d); { auto q = thread_pool::make_unique(opt(1)); q->resume(fin.h); q->shutdown(); }
        for (int k = 0; k < n; ++k) { r.emplace_back(0); auto x = rnd() % 4; if (x == 0) v.push_back(nullptr); else if (x == 1) v.push_back(fin.h); else { v.push_back(make(r.back()).h); all.push_back(v.back()); ++want; } }
        std::size_t got = p->resume(v); CHECK((long)got == want, "resume(range) of %d handles, %ld of them valid, reports %zu", n, want, got); p->shutdown(); long ran = 0; for (auto& x : r) { CHECK(x.load() <= 1, "ran %d times", x.load()); ran += x.load(); } CHECK(ran == want && d == 1, "%ld of %ld ran", ran, want); CHECK(p->size() == 0, "size %zu after shutdown", p->size()); for (auto h : all) h.destroy(); fin.h.destroy();
    }
    { scenario("blocking work on all threads"); auto p = thread_pool::make_unique(opt(3)); std::atomic<int> in{0}; std::atomic<int> r{0}; auto meet = [](thread_pool&, std::atomic<int>& in, std::atomic<int>& r) -> task<void> { in.fetch_add(1); while (in.load() < 3) std::this_thread::yield(); r.fetch_add(1); co_return; }; struct J { static job go(std::atomic<int>& in, std::atomic<int>& r) { in.fetch_add(1); while (in.load() < 3) std::this_thread::yield(); r.fetch_add(1); co_return; } }; std::this_thread::sleep_for(std::chrono::milliseconds(20)); std::vector<std::coroutine_handle<>> v; for (int k = 0; k < 3; ++k) v.push_back(J::go(in, r).h); p->resume(v); while (r.load() < 3) std::this_thread::yield(); p->shutdown(); for (auto h : v) h.destroy(); (void)meet; }
    auto t0 = std::chrono::steady_clock::now();
    for (int round = 0; round < 1000000 && std::chrono::steady_clock::now() - t0 < std::chrono::seconds(35); ++round)
    {
        scenario("producers and shutdown"); { std::lock_guard l(wm); workers.clear(); }
        auto p = thread_pool::make_unique(opt(1 + round % 3)); constexpr int N = 3, M = 12; std::atomic<int> r[N][M]{}; int acc[N][M]{}; std::coroutine_handle<> hs[N][M]{};
        int when = (int)(rnd() % 60); bool idler = round & 1;
        par(N + 1, [&](int i) {
            if (i == N) { for (int k = 0; k < when; ++k) std::this_thread::yield(); if (idler) std::this_thread::sleep_for(std::chrono::microseconds(rnd() % 300)); p->shutdown(); return; }
            for (int k = 0; k < M; ++k)
            {
                if (idler && !(rnd() & 7)) std::this_thread::sleep_for(std::chrono::microseconds(rnd() % 100));
                switch ((k + i) % 4)
                {
                    case 0: acc[i][k] = p->spawn_detached(body(T{}, r[i][k])); break;
                    case 1: { auto j = make(r[i][k]); hs[i][k] = j.h; acc[i][k] = p->resume(j.h); break; }
                    case 2: { auto j = make(r[i][k]); hs[i][k] = j.h; std::vector<std::coroutine_handle<>> v{j.h}; acc[i][k] = (int)p->resume(v); break; }
                    case 3: goes(*p, r[i][k], rnd() & 1, (int)(rnd() % 3)); acc[i][k] = 2; break;
                }
            }
        });
        // everything was handed over and shutdown() returned, the workers are gone
        for (int i = 0; i < N; ++i) for (int k = 0; k < M; ++k) { int v = r[i][k].load(); if (acc[i][k] == 2) CHECK(v == 2 || v == 3, "co_await schedule() neither continues nor throws (%d)", v); else CHECK(v == acc[i][k], "accepted %d, ran %d times", acc[i][k], v); }
        CHECK(p->size() == 0, "shut down, size %zu", p->size()); CHECK(p->queue_size() == 0, "shut down, %zu queued", p->queue_size()); for (auto& x : hs) for (auto h : x) if (h) h.destroy(); p.reset(); CHECK(live == 0, "%ld values leaked", live.load());
        { scenario("wake up"); auto q = thread_pool::make_unique(opt(2)); std::atomic<int> rr{0}; for (int k = 0; k < 20; ++k) { if (k & 1) std::this_thread::sleep_for(std::chrono::microseconds(rnd() % 200)); long b = rr.load(); CHECK(q->spawn_detached(body(T{}, rr)), "refused"); while (rr.load() == b) std::this_thread::yield(); } idle(*q, "wake up"); }
    }
    std::printf("no failing input found\n"); std::fflush(stdout); std::exit(0);
}
