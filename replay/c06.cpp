// RUN: -O1 -fsanitize=address,undefined | src/event.cpp src/mutex.cpp src/sync_wait.cpp src/thread_pool.cpp src/detail/task_self_deleting.cpp | 90
// RUN: -O1 -DRP_CHAOS -fsanitize-coverage=trace-pc-guard | src/event.cpp src/mutex.cpp src/sync_wait.cpp src/thread_pool.cpp src/detail/task_self_deleting.cpp | 90
// RUN: -O1 -fsanitize=thread | src/event.cpp src/mutex.cpp src/sync_wait.cpp src/thread_pool.cpp src/detail/task_self_deleting.cpp | 90
#include "rp.hpp"
#include <coro/ring_buffer.hpp>
#include <coro/thread_pool.hpp>
#include <deque>
#include <mutex>
#include <set>
#include <string>
using namespace rp;
using PR = coro::ring_buffer_result::produce; using CR = coro::ring_buffer_result::consume;
struct elem
{
    long v{-1};
    elem() = default; explicit elem(long x) : v(x) {}
    elem(const elem& o) = default; elem(elem&& o) noexcept : v(o.v) { o.v = -7; }
    elem& operator=(const elem& o) = default; elem& operator=(elem&& o) noexcept { long x = o.v; o.v = -7; v = x; return *this; }
};
struct inline_exec
{
    struct op { bool await_ready() noexcept { return true; } void await_suspend(std::coroutine_handle<>) noexcept {} void await_resume() noexcept {} };
    std::function<void()> on_yield;
    auto schedule() { return op{}; } bool spawn_detached(coro::task<void>&&) { return false; } coro::task<void> spawn_joinable(coro::task<void>&&) { co_return; }
    auto yield() { if (on_yield) on_yield(); return op{}; } bool resume(std::coroutine_handle<> h) { h.resume(); return true; } std::size_t size() { return 0; } bool empty() { return true; } void shutdown() {}
};
template<size_t N> void sequential()
{
    scenario("sequential"); using R = coro::ring_buffer<elem, N>;
    for (int len = 1; len <= 9; ++len)
    {
        long total = 1; for (int i = 0; i < len; ++i) total *= 8;
        for (long code = 0; code < total; code += 1 + (len > 4 ? (long)(rnd() % (len > 7 ? 4999 : len > 6 ? 499 : 37)) : 0))
        {
            g_beat.fetch_add(1, std::memory_order::relaxed);
            auto q = std::make_unique<R>(); std::deque<long> model; std::set<long> wp; int wc = 0; bool stop = false; long next = 100, deliveries = 0, expdel = 0;
            std::deque<long> got; int pr[3]{}, epr[3]{}, cs[2]{}, ecs[2]{}; std::string ops; std::set<long> seen;
            auto cons = [&]() -> fire { auto r = co_await q->consume(); if (r) { got.push_back(r->v); ++deliveries; CHECK(seen.insert(r->v).second, "script %s: element %ld delivered twice", ops.c_str(), r->v); } else ++cs[(int)r.error()]; };
            auto prod = [&](long x) -> fire { auto r = co_await q->produce(elem(x)); ++pr[(int)r]; };
            auto sd = [&]() -> fire { co_await q->shutdown(); }; auto np = [&]() -> fire { co_await q->notify_producers(); }; auto nc = [&]() -> fire { co_await q->notify_consumers(); };
            bool plain = true; int nw = 0;
            for (int i = 0; i < len; ++i)
            {
                int o = (code >> (3 * i)) & 7; ops += "pppcccnx"[o] == 'n' ? (i & 1 ? 'n' : 'm') : "pppcccnx"[o]; got.clear();
                if (o < 3)
                {
                    long x = next++;
                    if (stop) ++epr[2]; else if (wc) { --wc; ++expdel; ++epr[0]; } else if (model.size() < N) { model.push_back(x); ++epr[0]; } else { wp.insert(x); ++nw; }
                    prod(x);
                    if (!got.empty()) CHECK(got.size() == 1 && got[0] == x, "script %s: a waiting consumer got %ld instead of %ld", ops.c_str(), got[0], x);
                }
                else if (o < 6)
                {
                    long want = -2;
                    if (stop) ++ecs[1]; else if (!model.empty()) { want = model.front(); model.pop_front(); ++expdel; if (nw) { --nw; ++epr[0]; model.push_back(-1); } } else ++wc;
                    cons();
                    if (want != -2)
                    {
                        CHECK(got.size() == 1, "script %s: consume did not complete though the buffer held an element", ops.c_str());
                        if (want >= 0) CHECK(got[0] == want, "script %s: consume returned %ld, the oldest element is %ld", ops.c_str(), got[0], want);
                        else CHECK(wp.count(got[0]), "script %s: consume returned %ld, which no producer offered", ops.c_str(), got[0]);
                    }
                    // ids of admitted waiters become known when delivered only; keep wp as the superset
                }
                else if (o == 6) { if (i & 1) { if (!stop) { epr[1] += 0; } np(); } else { if (!stop) { ecs[0] += wc; wc = 0; } nc(); } }
                else { if (!stop) { stop = true; ecs[1] += wc; wc = 0; } sd(); }
                if (o == 6 && (i & 1)) { epr[1] = pr[1]; }
                long waitingp = (long)(next - 100) - pr[0] - pr[1] - pr[2];
                if (stop) CHECK(waitingp == 0, "script %s: %ld producers still wait after shutdown", ops.c_str(), waitingp);
                if (!stop && !(o == 6)) CHECK(waitingp == 0 || q->full(), "script %s: a producer waits although there is space", ops.c_str());
                if (o == 6 && (i & 1) && !stop) { CHECK(waitingp == 0, "script %s: notify_producers left %ld waiting", ops.c_str(), waitingp); nw = 0; }
                if (!plain) break;
                CHECK(deliveries == expdel, "script %s: %ld elements delivered, expected %ld", ops.c_str(), deliveries, expdel);
                CHECK(cs[0] == ecs[0] && cs[1] == ecs[1], "script %s: consumers notified %d (expected %d) stopped %d (expected %d)", ops.c_str(), cs[0], ecs[0], cs[1], ecs[1]);
                if (!stop) { CHECK(pr[0] == epr[0], "script %s: %d producers told produced, expected %d", ops.c_str(), pr[0], epr[0]); CHECK(q->size() == model.size(), "script %s: size %zu, expected %zu", ops.c_str(), q->size(), model.size()); }
                else CHECK(pr[0] == epr[0], "script %s: %d producers told produced, but %d elements were accepted", ops.c_str(), pr[0], epr[0]);
                CHECK(q->empty() == (q->size() == 0) && q->full() == (q->size() == N) && q->max_size() == N && q->is_shutdown() == stop, "script %s: queries", ops.c_str());
            }
            q.reset(); CHECK(pr[0] + pr[1] + pr[2] == next - 100, "script %s: a producer still waits after the buffer is gone", ops.c_str());
        }
    }
    for (int n = 0; n < 6; ++n)
        for (int k = 0; k < 4; ++k)
        {
            R q; auto e = std::make_unique<inline_exec>(); int got = 0, stopped = 0, pd = 0, ps = 0; bool done = false;
            auto push = [&](long x) -> fire { auto r = co_await q.produce(elem(x)); if (r == PR::produced) ++pd; else ++ps; };
            auto pop = [&]() -> fire { auto r = co_await q.consume(); if (r) { CHECK(r->v < (long)N && r->v == got, "drain out of order"); ++got; } else ++stopped; };
            for (int i = 0; i < n; ++i) push(i);
            int tick = 0; int acc = n < (int)N ? n : (int)N;
            e->on_yield = [&] { push(99); if (tick++ % (k + 1) == 0) pop(); };
            auto dr = [&]() -> fire { co_await q.shutdown_drain(e); done = true; }; dr();
            CHECK(done && pd == acc, "drain with %d offered: %d producers told produced, %d elements were stored", n, pd, acc); CHECK(got == acc, "drained %d of %d elements", got, acc); int s0 = stopped; pop(); CHECK(stopped == s0 + 1, "consume after drain"); push(1); CHECK(ps == n - acc + tick + 1, "produce after drain");
        }
    { R q; auto e = std::make_unique<inline_exec>(); auto push = [&](long x) -> fire { (void)co_await q.produce(elem(x)); }; push(1); auto sd = [&]() -> fire { co_await q.shutdown(); }; bool done = false; int st = 0; auto pop = [&]() -> fire { auto r = co_await q.consume(); if (!r) ++st; };
      e->on_yield = [&] { sd(); }; auto dr = [&]() -> fire { co_await q.shutdown_drain(e); done = true; }; dr(); pop(); CHECK(done && st == 1, "shutdown while draining did not stop the buffer"); }
}
template<size_t N> void threads(bool drain, bool both)
{
    scenario(drain ? "threads with drain" : "threads with shutdown"); using R = coro::ring_buffer<elem, N>;
    auto q = std::make_unique<R>(); static auto e = coro::thread_pool::make_unique(coro::thread_pool::options{.thread_count = 1});
    constexpr int P = 2, M = 5; std::atomic<int> accepted{0}, popped{0}, begun{0}, sdone{0}, pb{0}, pe{0}; std::mutex m; std::vector<long> out;
    auto push = [&](long x) -> fire { pb.fetch_add(1); if (co_await q->produce(elem(x)) == PR::produced) accepted.fetch_add(1); pe.fetch_add(1); };
    auto pop = [&](bool* st = nullptr) -> fire { begun.fetch_add(1); auto r = co_await q->consume(); if (r) { std::scoped_lock l(m); out.push_back(r->v); } popped.fetch_add(1); };
    std::atomic<bool> stopped{false};
    auto loop = [&]() -> fire { for (;;) { begun.fetch_add(1); auto r = co_await q->consume(); popped.fetch_add(1); if (!r) { if (r.error() == CR::stopped) break; continue; } std::scoped_lock l(m); out.push_back(r->v); } stopped = true; };
    auto sd = [&]() -> fire { co_await q->shutdown(); sdone.fetch_add(1); };
    auto dr = [&]() -> fire { co_await q->shutdown_drain(e); sdone.fetch_add(1); };
    par(5, [&](int t) {
        if (t < P) for (int i = 0; i < M; ++i) push(t * 100 + i);
        else if (t == 2) for (int i = 0; i < M; ++i) pop();
        else if (t == 3) loop();
        else { for (unsigned i = rnd() % 300; i; --i) __asm__ volatile(""); if (both) { std::thread a([&] { sd(); }); dr(); a.join(); } else if (drain) dr(); else sd(); }
    });
    for (int k = 0; k < 5000 && !(sdone.load() == 1 + both && begun.load() == popped.load() && pb.load() == pe.load() && stopped.load()); ++k) usleep(1000);
    CHECK(sdone.load() == 1 + both, "shutdown did not complete");
    CHECK(begun.load() == popped.load(), "%d consumers are still waiting after shutdown", begun.load() - popped.load());
    CHECK(pb.load() == pe.load(), "%d producers are still waiting after shutdown", pb.load() - pe.load());
    std::scoped_lock l(m); std::set<long> s(out.begin(), out.end());
    CHECK(s.size() == out.size(), "an element was delivered twice"); CHECK((int)out.size() <= accepted.load(), "%zu elements delivered, %d accepted", out.size(), accepted.load());
    for (long v : out) CHECK(v >= 0 && v < 200 && v % 100 < M, "element %ld was never produced", v);
    if (drain && !both) CHECK((int)out.size() == accepted.load(), "drained %zu of %d accepted elements", out.size(), accepted.load());
}
// no shutdown: everything produced arrives
template<size_t N> void flow()
{
    scenario("flow"); coro::ring_buffer<elem, N> q; std::atomic<int> pd{0}, cd{0}; constexpr int M = 20; std::atomic<long> sum{0};
    auto push = [&](int t) -> fire { for (int i = 1; i <= M; ++i) { if (co_await q.produce(elem(t * 1000 + i)) == PR::produced) pd.fetch_add(1); } };
    auto pop = [&](int) -> fire { for (int i = 1; i <= M; ++i) { auto r = co_await q.consume(); if (r) { sum.fetch_add(r->v); cd.fetch_add(1); } } };
    par(4, [&](int t) { if (t < 2) push(t); else pop(t); });
    for (int k = 0; k < 5000 && !(pd.load() == 2 * M && cd.load() == 2 * M); ++k) usleep(1000);
    CHECK(pd.load() == 2 * M && cd.load() == 2 * M, "%d produced, %d consumed of %d: a waiter is lost", pd.load(), cd.load(), 2 * M);
    CHECK(sum.load() == 1000 * M + M * (M + 1), "elements corrupted");
}
int main()
{
    watchdog(20); sequential<1>(); sequential<2>(); sequential<3>(); g_chaos = true;
    auto end = std::chrono::steady_clock::now() + std::chrono::seconds(25);
    while (std::chrono::steady_clock::now() < end) { threads<2>(false, false); threads<2>(true, false); threads<1>(true, true); flow<1>(); flow<3>(); }
    std::puts("no failing input found"); std::fflush(stdout); _exit(0);
}
