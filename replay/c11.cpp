// RUN: -O1 -fsanitize=address,undefined -fsanitize-coverage=trace-pc-guard -DRP_CHAOS | | 60
// RUN: -O1 -fsanitize=thread -fsanitize-coverage=trace-pc-guard -DRP_CHAOS | | 60
#include "rp.hpp"
#include <coro/task.hpp>
#include <coro/when_all.hpp>
#include <algorithm>
#include <memory>
#include <random>
#include <string>
using namespace rp; using coro::task;
struct mine { long id; };
static std::atomic<long> live{0};
struct V { std::unique_ptr<long> p; explicit V(long i) : p(new long(i)) { ++live; } V(V&& o) noexcept : p(std::move(o.p)) { ++live; } V(const V& o) : p(new long(*o.p)) { ++live; } ~V() { --live; } };
static long idof(const V& v) { return v.p ? *v.p : -1; }
static long idof(long v) { return v; }
static long idof(coro::detail::void_value) { return 0; }
static std::atomic<void*> parked[64]; static std::atomic<int> finished{0}; static long written[64]; static V cell{77};
template<class T> struct aw
{
    int n; bool ready, thr; long id;
    bool await_ready() { return ready; }
    void await_suspend(std::coroutine_handle<> h) { parked[n].store(h.address(), std::memory_order::release); }
    T await_resume() { written[n] = id; finished.fetch_add(1, std::memory_order::relaxed); if (thr) throw mine{id}; if constexpr (std::is_void_v<T>) return; else if constexpr (std::is_reference_v<T>) return cell; else return T(id); }
};
template<class T> static task<T> wrap(aw<T> a) { if constexpr (std::is_void_v<T>) co_await a; else co_return co_await a; }
static int ended;
static std::atomic<bool> done{false};
template<class F> static void slot(const char* what, int n, bool thr, long id, bool isvoid, F f)
{
    long v = -99, e = 0; try { auto&& r = f(); v = idof(r); } catch (mine& m) { e = m.id; }
    CHECK(written[n] == id, "%s: the awaiter continued before child %d finished", what, n);
    if (thr) CHECK(e == id, "%s: slot %d: exception %ld became value %ld, exception %ld", what, n, id, v, e); else CHECK(e == 0 && v == (isvoid ? 0 : id), "%s: slot %d holds %ld (exception %ld) instead of %ld", what, n, v, e, id);
}
struct cfg { bool ready[8], thr[8]; long id[8]; };
static cfg rndcfg(int n) { cfg c; for (int k = 0; k < n; ++k) { c.ready[k] = rnd() % 3 == 0; c.thr[k] = rnd() % 3 == 0; c.id[k] = 1 + rnd() % 1000; } return c; }
template<class C> static task<void> vec(std::vector<C> in, const cfg& c, int n, bool lval)
{
    auto check = [&](auto& r) { CHECK((int)r.size() == n, "%d children, %zu slots", n, r.size()); ++ended; for (int k = 0; k < n; ++k) { slot("list of children", k, c.thr[k], c.id[k], false, [&]() -> decltype(auto) { return r[k].return_value(); }); if (k & 1) slot("list of children, moved out", k, c.thr[k], c.id[k], false, [&]() -> decltype(auto) { return std::move(r[k]).return_value(); }); } };
    if (lval) { auto w0 = coro::when_all(std::move(in)); auto w = std::move(w0); auto& r = co_await w; check(r); } else { auto r = co_await coro::when_all(std::move(in)); check(r); }
    done = true;
}
static task<void> vecv(std::vector<task<void>> in, const cfg& c, int n)
{
    auto r = co_await coro::when_all(std::move(in)); ++ended; CHECK((int)r.size() == n, "%d children, %zu slots", n, r.size());
    for (int k = 0; k < n; ++k) slot("list of children without values", k, c.thr[k], c.id[k], true, [&]() -> decltype(auto) { return r[k].return_value(); });
    done = true;
}
template<class T> static aw<T> mk(const cfg& c, int k) { return aw<T>{k, c.ready[k], c.thr[k], c.id[k]}; }
static task<void> fixed(const cfg& c)
{
    auto r = co_await coro::when_all(mk<V>(c, 0), mk<void>(c, 1), wrap(mk<long>(c, 2)), wrap(mk<V>(c, 3))); ++ended; using std::get;
    slot("argument list", 0, c.thr[0], c.id[0], false, [&]() -> decltype(auto) { return get<0>(r).return_value(); }); slot("argument list", 1, c.thr[1], c.id[1], true, [&]() -> decltype(auto) { return get<1>(r).return_value(); });
    slot("argument list", 2, c.thr[2], c.id[2], false, [&]() -> decltype(auto) { return get<2>(r).return_value(); }); slot("argument list", 3, c.thr[3], c.id[3], false, [&]() -> decltype(auto) { return std::move(get<3>(r)).return_value(); });
    done = true;
}
static task<void> refs(const cfg& c)
{
    auto w0 = coro::when_all(mk<V&>(c, 0), mk<void>(c, 1)); auto w = std::move(w0); auto r = co_await std::move(w); ++ended; using std::get; cfg d = c; d.id[0] = 77;
    long v = -99, e = 0; const void* p = nullptr; try { auto&& x = get<0>(r).return_value(); v = idof(x); p = &x; } catch (mine& m) { e = m.id; }
    CHECK(written[0] == c.id[0], "a reference: the awaiter continued before the child finished"); if (c.thr[0]) CHECK(e == c.id[0], "a reference: exception lost"); else CHECK(v == 77 && p == &cell, "a reference: value %ld of another object than the child's", v);
    slot("reference and void", 1, c.thr[1], c.id[1], true, [&]() -> decltype(auto) { return get<1>(r).return_value(); });
    done = true;
}
static task<void> none() { auto r = co_await coro::when_all(); (void)r; ++ended; done = true; }
static task<void> zero() { auto r = co_await coro::when_all(std::vector<task<void>>{}); CHECK(r.empty(), "slots without children"); ++ended; done = true; }
static void go(const char* what, int n, const cfg& c, int mode, const std::function<task<void>()>& make, std::vector<std::thread>* pool = nullptr)
{
    for (auto& p : parked) p = nullptr; std::fill_n(written, 64, 0); finished = 0; ended = 0; done = false;
    auto t = make(); std::vector<int> ord(n); for (int k = 0; k < n; ++k) ord[k] = k; std::shuffle(ord.begin(), ord.end(), std::minstd_rand(rnd()));
    if (mode == 0)
    {
        t.resume(); int left = 0; for (int k = 0; k < n; ++k) { CHECK((parked[k].load() != nullptr) == !c.ready[k], "%s: child %d of %d %s", what, k, n, c.ready[k] ? "was not started or suspended" : "was not started"); left += !c.ready[k]; }
        for (int k : ord) if (auto h = parked[k].exchange(nullptr)) { CHECK(!done && !ended, "%s: the awaiter continued while %d of %d children are unfinished", what, left, n); --left; std::coroutine_handle<>::from_address(h).resume(); }
    }
    else
    {
        // every child is continued by a thread of its own, while the awaiter may still be starting the others
        g_chaos = true; std::vector<std::thread> th; std::atomic<int> at{0};
        for (int k = 0; k < n; ++k) if (!c.ready[k]) th.emplace_back([k] { void* h; while (!(h = parked[k].exchange(nullptr, std::memory_order::acquire))) {} std::coroutine_handle<>::from_address(h).resume(); });
        t.resume(); for (auto& x : th) x.join(); g_chaos = false;
    }
    CHECK(done && t.is_ready(), "%s: %d children finished and the awaiter never continued", what, n); CHECK(ended == 1, "%s: the awaiter continued %d times", what, ended);
    t.promise().result(); t.destroy(); CHECK(live == 1, "%s: %ld values leaked", what, (long)live - 1); g_beat.fetch_add(1);
}
int main()
{
    watchdog(30); scenario("when_all"); cfg c0 = rndcfg(8); go("no children", 0, c0, 0, [] { return none(); }); go("an empty list", 0, c0, 0, [] { return zero(); });
    for (int mode = 0; mode < 2; ++mode) for (int r = 0; r < (mode ? 1200 : 6000); ++r)
    {
        scenario(mode ? "children finishing on other threads" : "children finishing in any order"); int n = 1 + rnd() % 6; cfg c = rndcfg(8);
        switch (rnd() % 6)
        {
            case 0: { std::vector<aw<V>> v; for (int k = 0; k < n; ++k) v.push_back(mk<V>(c, k)); go("list of awaitables", n, c, mode, [&] { return vec(std::move(v), c, n, rnd() & 1); }); break; }
            case 1: { std::vector<task<V>> v; for (int k = 0; k < n; ++k) v.push_back(wrap(mk<V>(c, k))); go("list of tasks", n, c, mode, [&] { return vec(std::move(v), c, n, rnd() & 1); }); break; }
            case 2: { std::vector<task<long>> v; for (int k = 0; k < n; ++k) v.push_back(wrap(mk<long>(c, k))); go("list of tasks", n, c, mode, [&] { return vec(std::move(v), c, n, rnd() & 1); }); break; }
            case 3: { std::vector<task<void>> v; for (int k = 0; k < n; ++k) v.push_back(wrap(mk<void>(c, k))); go("list of void tasks", n, c, mode, [&] { return vecv(std::move(v), c, n); }); break; }
            case 5: go("references", 2, c, mode, [&] { return refs(c); }); break;
            case 4: go("argument list", 4, c, mode, [&] { return fixed(c); }); break;
        }
    }
    std::printf("no failing input found\n"); std::fflush(stdout); _exit(0);
}
