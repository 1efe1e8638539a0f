// RUN: -O1 -fsanitize=address,undefined -fsanitize-coverage=trace-pc-guard -DRP_CHAOS | src/sync_wait.cpp | 60
// RUN: -O1 -fsanitize=thread -fsanitize-coverage=trace-pc-guard -DRP_CHAOS | src/sync_wait.cpp | 60
#include "rp.hpp"
#include <coro/sync_wait.hpp>
#include <coro/task.hpp>
#include <memory>
#include <string>
using namespace rp;
struct mine { long id; };
struct V { std::unique_ptr<long> p; explicit V(long i) : p(new long(i)) {} V(V&&) = default; V(const V& o) : p(new long(*o.p)) {} };
static long idof(const V& v) { return v.p ? *v.p : -1; }
static long idof(long v) { return v; }
enum how { ready, here, other, late };
// another thread that continues what is handed to it
struct helper
{
    std::atomic<void*> box{nullptr}; std::atomic<bool> stop{false}; std::atomic<int> delay{0}; std::thread t;
    helper() : t([this] { while (!stop) { if (auto h = box.exchange(nullptr)) { for (volatile int k = 0; k < delay; ++k) {} std::coroutine_handle<>::from_address(h).resume(); } else std::this_thread::yield(); } }) {}
    ~helper() { stop = true; t.join(); }
};
static helper* H; static long written; static V* cell;
template<class T> struct aw
{
    how h; long id; bool thr;
    bool await_ready() { return h == ready; }
    bool await_suspend(std::coroutine_handle<> c) { if (h == here) return false; H->delay = h == late ? 3000 : 0; H->box = c.address(); return true; }
    T await_resume() { written = id; if (thr) throw mine{id}; if constexpr (std::is_void_v<T>) return; else if constexpr (std::is_reference_v<T>) return *cell; else return T(id); }
};
template<class T> static coro::task<T> wrap(how h, long id, bool thr) { if constexpr (std::is_void_v<T>) co_await aw<T>{h, id, thr}; else co_return co_await aw<T>{h, id, thr}; }
template<class T> static coro::task<T> nest(int n, how h, long id, bool thr) { if (n == 0) { if constexpr (std::is_void_v<T>) { co_await wrap<T>(h, id, thr); co_return; } else co_return co_await wrap<T>(h, id, thr); } if constexpr (std::is_void_v<T>) co_await nest<T>(n - 1, h, id, thr); else co_return co_await nest<T>(n - 1, h, id, thr); }
template<class T, class F> static void look(const char* what, how h, long id, bool thr, F f)
{
    written = 0; long v = -99, e = 0; const void* p = nullptr;
    try { if constexpr (std::is_void_v<T>) { f(); v = id; } else { decltype(auto) r = f(); v = idof(r); p = &r; } } catch (mine& m) { e = m.id; } catch (std::exception& x) { FAIL("%s, completing %s: throws %s", what, h == ready ? "at once" : "elsewhere", x.what()); }
    CHECK(written == id, "%s: sync_wait returned before the awaited operation completed", what);
    if (thr) CHECK(e == id, "%s: exception %ld became value %ld, exception %ld", what, id, v, e); else CHECK(e == 0 && v == (std::is_reference_v<T> ? idof(*cell) : id), "%s: value %ld instead of %ld", what, v, id);
    if (std::is_reference_v<T> && !thr) CHECK(p == cell, "%s: another object", what);
}
template<class T> static void all(const char* n)
{
    for (int h = 0; h < 4; ++h) for (bool thr : {false, true}) for (int r = 0; r < 300; ++r)
    {
        scenario(n); long id = 1000 * r + h + 1; auto m = [&](const char* s) { return std::string(n) + s; };
        look<T>(m(", awaitable").c_str(), (how)h, id, thr, [&]() -> T { return coro::sync_wait(aw<T>{(how)h, id, thr}); });
        look<T>(m(", task").c_str(), (how)h, id, thr, [&]() -> T { return coro::sync_wait(wrap<T>((how)h, id, thr)); });
        look<T>(m(", task lvalue").c_str(), (how)h, id, thr, [&]() -> T { auto t = wrap<T>((how)h, id, thr); return coro::sync_wait(t); });
        look<T>(m(", nested tasks").c_str(), (how)h, id, thr, [&]() -> T { return coro::sync_wait(nest<T>(3, (how)h, id, thr)); });
    }
}
int main()
{
    watchdog(20); H = new helper; cell = new V(77); g_chaos = true;
    all<void>("sync_wait(void)"); all<long>("sync_wait(long)"); all<V>("sync_wait(V)"); all<V&>("sync_wait(V&)");
    scenario("sync_wait from several threads");
    par(4, [](int k) { helper mineh; for (int r = 0; r < 500; ++r) { struct a { helper* h; bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> c) { h->box = c.address(); } int await_resume() { return 5; } }; CHECK(coro::sync_wait(a{&mineh}) == 5, "value"); g_beat.fetch_add(1); } });
    scenario("event");
    for (int r = 0; r < 3000; ++r) { coro::detail::sync_wait_event* e = new coro::detail::sync_wait_event(); std::thread t([e] { e->set(); }); e->wait(); delete e; t.join(); g_beat.fetch_add(1); }
    std::printf("no failing input found\n"); std::fflush(stdout); _exit(0);
}
