// RUN: -O1 -fsanitize=address,undefined -fsanitize-coverage=trace-pc-guard -DRP_CHAOS | src/event.cpp src/thread_pool.cpp src/mutex.cpp src/sync_wait.cpp src/detail/task_self_deleting.cpp | 90
// RUN: -O1 -fsanitize=thread -fsanitize-coverage=trace-pc-guard -DRP_CHAOS | src/event.cpp src/thread_pool.cpp src/mutex.cpp src/sync_wait.cpp src/detail/task_self_deleting.cpp | 90
#include "rp.hpp"
#include <coro/sync_wait.hpp>
#include <coro/task_group.hpp>
#include <deque>
#include <memory>
#include <mutex>
using namespace rp; using coro::task;
// an executor: runs at once, keeps, refuses, or runs on its threads
struct ex
{
    struct op { bool await_ready() noexcept { return true; } void await_suspend(std::coroutine_handle<>) noexcept {} void await_resume() noexcept {} };
    int mode; std::mutex mu; std::deque<std::coroutine_handle<>> q; std::atomic<bool> stop{false}; std::vector<std::thread> th; std::atomic<long> runs{0}, refusals{0};
    explicit ex(int m, int threads = 0) : mode(m) { for (int i = 0; i < threads; ++i) th.emplace_back([this] { while (!stop.load() || some()) if (!one()) std::this_thread::yield(); }); }
    ~ex() { stop = true; for (auto& t : th) t.join(); }
    bool some() { std::lock_guard l(mu); return !q.empty(); }
    bool one() { std::coroutine_handle<> h; { std::lock_guard l(mu); if (q.empty()) return false; h = q.front(); q.pop_front(); } ++runs; h.resume(); return true; }
    op schedule() { return {}; } op yield() { return {}; } bool spawn_detached(task<void>) { return false; } task<void> spawn_joinable(task<void>) { co_return; } std::size_t size() { return 0; } bool empty() { return true; } void shutdown() {}
    bool resume(std::coroutine_handle<> h) { if (mode == 2 || (mode == 3 && (rnd() & 1))) { ++refusals; return false; } if (mode == 0) { ++runs; h.resume(); return true; } std::lock_guard l(mu); q.push_back(h); return true; }
};
using group = coro::task_group<ex>;
static std::atomic<long> live{0};
struct T { std::unique_ptr<long> p{new long(1)}; T() { ++live; } T(T&& o) noexcept : p(std::move(o.p)) { ++live; } ~T() { --live; } };
static std::vector<std::coroutine_handle<>> parked;
struct park { bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> h) { parked.push_back(h); } void await_resume() {} };
static task<void> body(T, int kind, std::atomic<long>& begun, std::atomic<long>& ended) { T l; ++begun; if (kind == 2) { ++ended; throw 1; } if (kind == 1) co_await park{}; ++ended; co_return; }
static task<void> spins(int n, std::atomic<bool>& done) { for (int k = 0; k < n; ++k) std::this_thread::yield(); done.store(true, std::memory_order::relaxed); co_return; }
static task<void> nests(group& g, int n, std::atomic<long>& ended) { if (n > 0) { CHECK(g.start(nests(g, n - 1, ended)), "refused"); CHECK(g.size() >= 1, "a running task does not count"); } ++ended; co_return; }
struct waiter { std::atomic<int> done{0}; fire go(group& g) { co_await g; done.fetch_add(1); } };
int main()
{
    g_chaos = true; watchdog(15);
    for (int mode = 0; mode < 4; ++mode) for (int seq = 0; seq < 81; ++seq)
    {
        scenario("single thread"); ex e(mode); auto g = std::make_unique<group>(&e); std::atomic<long> begun{0}, ended{0}; int s = seq; long accepted = 0; parked.clear(); char d[60]; std::snprintf(d, sizeof d, "executor %d, tasks %d", mode, seq);
        { waiter w; w.go(*g); CHECK(w.done.load() == 1, "awaiting an empty group does not complete"); }
        std::deque<waiter> ws;
        for (int k = 0; k < 4; ++k, s /= 3)
        {
            long b = begun.load(); bool ok = g->start(body(T{}, s % 3, begun, ended)); accepted += ok; if (!ok) CHECK(begun.load() == b, "%s: a refused task runs", d); if (mode == 2) CHECK(!ok, "%s: a refused start is reported as started", d); if (mode < 2) CHECK(ok, "%s: an accepted start is reported as refused", d);
            CHECK((long)g->size() == accepted - ended.load(), "%s: size %zu, %ld tasks started and unfinished", d, g->size(), accepted - ended.load()); CHECK(g->empty() == (g->size() == 0), "%s: empty()", d);
            ws.emplace_back(); ws.back().go(*g); CHECK(ws.back().done.load() == (g->size() == 0), "%s: awaiting with %zu unfinished tasks completes %d times", d, g->size(), ws.back().done.load());
        }
        for (;;) { bool more = e.one(); if (!more && !parked.empty()) { auto h = parked.back(); parked.pop_back(); h.resume(); more = true; } CHECK((long)g->size() == accepted - ended.load(), "%s: size %zu, %ld tasks started and unfinished", d, g->size(), accepted - ended.load()); for (auto& w : ws) CHECK(w.done.load() == (g->size() == 0) || w.done.load() == 1, "%s: awaiting completed %d times with %zu unfinished tasks", d, w.done.load(), g->size()); if (!more) break; }
        for (auto& w : ws) CHECK(w.done.load() == 1, "%s: awaiting the group completed %d times", d, w.done.load());
        CHECK(ended.load() == accepted && begun.load() == accepted, "%s: %ld accepted, %ld ran", d, accepted, ended.load()); g.reset(); CHECK(live.load() == 0, "%s: %ld values leaked", d, live.load());
    }
    { scenario("nested"); ex e(0); group g(&e); std::atomic<long> n{0}; CHECK(g.start(nests(g, 20, n)), "refused"); coro::sync_wait(g); CHECK(n == 21 && g.empty(), "nested tasks"); std::vector<task<void>> v; for (int k = 0; k < 5; ++k) v.push_back(nests(g, 0, n)); ex e2(1); { auto up = std::make_unique<group>(&e2, std::move(v)); CHECK(up->size() == 5, "size %zu after starting five tasks", up->size()); while (e2.one()) {} CHECK(up->empty(), "not empty"); } std::unique_ptr<ex> ue = std::make_unique<ex>(1); group gu(ue, nests(g, 0, n)); CHECK(gu.size() == 1, "size"); ue->one(); CHECK(n == 27, "%ld", n.load()); bool threw = false; try { group bad(static_cast<ex*>(nullptr)); } catch (std::runtime_error&) { threw = true; } CHECK(threw, "a null executor is accepted"); }
    auto t0 = std::chrono::steady_clock::now();
    for (int r = 0; r < 100000 && std::chrono::steady_clock::now() - t0 < std::chrono::seconds(25); ++r)
    {
        { scenario("awaiting right after starting, another task finishing"); ex e(1, 3); auto g = std::make_unique<group>(&e);
          par(3, [&](int i) { for (int k = 0; k < 20; ++k) { std::atomic<bool> done{false}; auto n = i == 0 ? 0 : (int)(rnd() % 40); CHECK(g->start(spins(n, done)), "refused"); coro::sync_wait(*g); CHECK(done.load(std::memory_order::relaxed), "awaiting the group completed although a task started before is unfinished"); } });
          g.reset(); }
        { scenario("destructor while the last task finishes"); ex e(1, 3); auto g = std::make_unique<group>(&e); std::atomic<bool> d[3]{}; for (auto& x : d) CHECK(g->start(spins((int)(rnd() % 10), x)), "refused"); if (rnd() & 1) coro::sync_wait(*g); g.reset(); for (auto& x : d) CHECK(x.load(std::memory_order::relaxed), "destroyed while a task runs"); }
        { scenario("waiters"); ex e(3, 2); auto g = std::make_unique<group>(&e); std::atomic<bool> d[4]{}; par(2, [&](int i) { bool a = g->start(spins(5, d[2 * i])), b = g->start(spins(1, d[2 * i + 1])); coro::sync_wait(*g); CHECK((!a || d[2 * i].load(std::memory_order::relaxed)) && (!b || d[2 * i + 1].load(std::memory_order::relaxed)), "awaiting the group completed although a task started before is unfinished"); CHECK(a || !d[2 * i].load(), "a refused task ran"); }); g.reset(); }
    }
    std::printf("no failing input found\n"); std::fflush(stdout); std::exit(0);
}
