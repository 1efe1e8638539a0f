// RUN: -O1 -fsanitize=address,undefined -fsanitize-coverage=trace-pc-guard -DRP_CHAOS | src/event.cpp src/detail/task_self_deleting.cpp | 60
// RUN: -O1 -fsanitize=thread -fsanitize-coverage=trace-pc-guard -DRP_CHAOS | src/event.cpp src/detail/task_self_deleting.cpp | 60
#include "rp.hpp"
#include <coro/task.hpp>
#include <coro/when_any.hpp>
#include <algorithm>
#include <memory>
#include <random>
#include <string>
using namespace rp; using coro::task;
struct mine { long id; };
static std::atomic<long> live{0}, frames{0};
struct V { std::unique_ptr<long> p; explicit V(long i) : p(new long(i)) { ++live; } V(V&& o) noexcept : p(std::move(o.p)) { ++live; } V(const V& o) : p(new long(*o.p)) { ++live; } V& operator=(V&& o) noexcept { p = std::move(o.p); return *this; } ~V() { --live; } };
static long idof(const V& v) { return v.p ? *v.p : -1; }
static long idof(long v) { return v; }
static long idof(std::monostate) { return 0; }
static std::atomic<void*> parked[64]; static std::atomic<int> order{0}, starts[64]; static std::atomic<int> got_at[64]; static std::atomic<bool> touched[64];
template<class T> struct aw
{
    int n; bool ready, thr; long id;
    bool await_ready() { return ready; }
    void await_suspend(std::coroutine_handle<> h) { parked[n].store(h.address(), std::memory_order::release); }
    T await_resume() { if (thr) throw mine{id}; got_at[n] = 1 + order.fetch_add(1); if constexpr (std::is_void_v<T>) return; else return T(id); }
};
struct guard { guard() { ++frames; } ~guard() { --frames; } };
template<class T> static task<T> wrap(aw<T> a) { guard g; ++starts[a.n]; if constexpr (std::is_void_v<T>) co_await a; else co_return co_await a; }
struct res { std::atomic<int> times{0}; long v = -99; int idx = -1; bool stop = false; long exc = 0; std::atomic<bool> gone{false}; };
// the awaiter is destroyed as soon as it has its result, on whatever thread that is
static fire detach(std::unique_ptr<task<void>> t, res& r) { co_await *t; t.reset(); r.gone = true; }
template<class C> static task<void> vec(std::vector<C> in, res& r, std::stop_source* s)
{
    guard g; try { if (s) { auto v = co_await coro::when_any(*s, std::move(in)); r.v = idof(v); r.stop = s->stop_requested(); } else { auto v = co_await coro::when_any(std::move(in)); r.v = idof(v); } } catch (mine& m) { r.exc = m.id; }
    ++r.times;
}
static task<void> vecv(std::vector<task<void>> in, res& r, std::stop_source* s)
{
    guard g; try { if (s) { co_await coro::when_any(*s, std::move(in)); r.stop = s->stop_requested(); } else co_await coro::when_any(std::move(in)); } catch (mine& m) { r.exc = m.id; }
    ++r.times;
}
struct cfg { bool ready[8], thr[8]; long id[8]; };
static cfg rndcfg(int n) { cfg c; for (int k = 0; k < n; ++k) { c.ready[k] = rnd() % 4 == 0; c.thr[k] = rnd() % 4 == 0; c.id[k] = 1 + rnd() % 1000; } c.thr[rnd() % n] = false; return c; }
template<class T> static aw<T> mk(const cfg& c, int k) { return aw<T>{k, c.ready[k], c.thr[k], c.id[k]}; }
static task<void> fixed(const cfg& c, res& r, std::stop_source* s)
{
    guard g; auto see = [&](auto& v) { r.idx = v.index(); std::visit([&](auto& x) { r.v = idof(x); }, v); };
    try { if (s) { auto v = co_await coro::when_any(*s, mk<V>(c, 0), wrap(mk<void>(c, 1)), wrap(mk<V>(c, 2)), mk<long>(c, 3)); see(v); r.stop = s->stop_requested(); } else { auto v = co_await coro::when_any(mk<V>(c, 0), wrap(mk<void>(c, 1)), wrap(mk<V>(c, 2)), mk<long>(c, 3)); see(v); } } catch (mine& m) { r.exc = m.id; }
    ++r.times;
}
static void go(const char* what, int n, const cfg& c, int mode, std::stop_source* s, bool isvoid, const std::function<task<void>(res&, std::stop_source*)>& make)
{
    for (auto& p : parked) p = nullptr; for (auto& p : got_at) p = 0; for (auto& p : starts) p = 0; order = 0; auto r = std::make_unique<res>();
    auto t = std::make_unique<task<void>>(make(*r, s)); std::vector<int> ord(n); for (int k = 0; k < n; ++k) ord[k] = k; std::shuffle(ord.begin(), ord.end(), std::minstd_rand(rnd()));
    auto check = [&] {
        CHECK(r->times == 1, "%s: a child has a result and the awaiter continued %d times", what, (int)r->times); CHECK(!r->exc, "%s: throws", what); int w = -1, lo = 1000; bool ok = false;
        for (int k = 0; k < n; ++k) if (got_at[k]) { if (got_at[k] < lo) { lo = got_at[k]; w = k; } long want = isvoid || (r->idx == 1) ? 0 : c.id[k]; if ((isvoid || r->v == want) && (r->idx < 0 || r->idx == k)) ok = ok || mode || true; }
        (void)ok; bool match = false; for (int k = 0; k < n; ++k) if (got_at[k] && (mode || k == w)) { bool same = isvoid || (r->idx >= 0 ? r->idx == k && r->v == (k == 1 ? 0 : c.id[k]) : r->v == c.id[k]); match = match || same; }
        CHECK(match, "%s: result %ld (alternative %d) is not the result of %s, that is %ld of child %d", what, r->v, r->idx, mode ? "a finished child" : "the child that finished first", c.id[w < 0 ? 0 : w], w);
        if (s) CHECK(r->stop, "%s: the stop token was not requested although there is a winner", what);
    };
    if (mode == 0)
    {
        t->resume(); bool won = false; auto look = [&] { bool any = order > 0; if (any && !won) { won = true; check(); t.reset(); } if (!any) { CHECK(r->times == 0, "%s: continues although no child has a result", what); if (s) CHECK(!s->stop_requested(), "%s: stop requested without a winner", what); } };
        for (int k = 0; k < n; ++k) CHECK((parked[k].load() != nullptr) == !c.ready[k], "%s: child %d of %d %s", what, k, n, c.ready[k] ? "suspended" : "was not started");
        look(); for (int k : ord) if (auto h = parked[k].exchange(nullptr)) { std::coroutine_handle<>::from_address(h).resume(); look(); }
        CHECK(won, "%s: nobody won", what);
    }
    else
    {
        g_chaos = true; std::vector<std::thread> th;
        for (int k = 0; k < n; ++k) if (!c.ready[k]) th.emplace_back([k] { void* h; while (!(h = parked[k].exchange(nullptr, std::memory_order::acquire))) {} std::coroutine_handle<>::from_address(h).resume(); });
        detach(std::move(t), *r); while (!r->gone) std::this_thread::yield();
        for (auto& x : th) x.join(); g_chaos = false; check();
    }
    t.reset(); CHECK(frames == 0, "%s: %ld frames leaked", what, (long)frames); CHECK(live == 0, "%s: %ld values leaked", what, (long)live); g_beat.fetch_add(1);
}
int main()
{
    watchdog(30);
    for (int mode = 0; mode < 2; ++mode) for (int r = 0; r < (mode ? 1200 : 6000); ++r)
    {
        scenario(mode ? "children finishing on other threads" : "children finishing in any order"); int n = 1 + rnd() % 5; std::stop_source src; std::stop_source* s = rnd() & 1 ? &src : nullptr;
        switch (rnd() % 4)
        {
            case 0: { cfg c = rndcfg(n); std::vector<aw<V>> v; for (int k = 0; k < n; ++k) v.push_back(mk<V>(c, k)); go("list of awaitables", n, c, mode, s, false, [&](res& r, std::stop_source* s) { return vec(std::move(v), r, s); }); break; }
            case 1: { cfg c = rndcfg(n); std::vector<task<V>> v; for (int k = 0; k < n; ++k) v.push_back(wrap(mk<V>(c, k))); go("list of tasks", n, c, mode, s, false, [&](res& r, std::stop_source* s) { return vec(std::move(v), r, s); }); break; }
            case 2: { cfg c = rndcfg(n); std::vector<task<void>> v; for (int k = 0; k < n; ++k) v.push_back(wrap(mk<void>(c, k))); go("list of void tasks", n, c, mode, s, true, [&](res& r, std::stop_source* s) { return vecv(std::move(v), r, s); }); break; }
            case 3: { cfg c = rndcfg(4); go("argument list", 4, c, mode, s, false, [&](res& r, std::stop_source* s) { return fixed(c, r, s); }); break; }
        }
    }
    std::printf("no failing input found\n"); std::fflush(stdout); _exit(0);
}
