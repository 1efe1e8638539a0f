// RUN: -O1 -fsanitize=address,undefined | | 60
#include "rp.hpp"
#include <coro/task.hpp>
#include <map>
#include <memory>
#include <string>
#include <stdexcept>
using namespace rp; using coro::task;
static long live = 0; static std::map<const void*, int> alive; static bool copy_throws = false;
struct copied_badly {};
struct T
{
    long id; std::unique_ptr<long> own;
    void in() { CHECK(++alive[this] == 1, "a value is constructed twice at one place"); ++live; }
    explicit T(long i) : id(i), own(new long(i)) { in(); }
    T(const T& o) : id(o.id), own(o.own ? new long(*o.own) : nullptr) { if (copy_throws) throw copied_badly{}; in(); }
    T(T&& o) noexcept : id(o.id), own(std::move(o.own)) { o.id = -7; in(); }
    T& operator=(const T&) = default; T& operator=(T&& o) noexcept { id = o.id; own = std::move(o.own); o.id = -7; return *this; }
    ~T() { CHECK(--alive[this] == 0, "a value is destroyed twice"); --live; }
};
struct guard { long& n; guard(long& n) : n(n) { ++n; } ~guard() { --n; } };
static long frames = 0; static std::coroutine_handle<> parked; static int starts = 0;
struct park { bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> h) { parked = h; } void await_resume() {} };
struct mine { long id; };
template<class R, class Mk> static task<R> body(int suspends, long thr, Mk mk)
{
    guard g{frames}; ++starts; for (int k = 0; k < suspends; ++k) co_await park{};
    if (thr) throw mine{thr};
    if constexpr (std::is_void_v<R>) { mk(); co_return; } else co_return mk();
}
static task<T> ret_copy(int suspends, long id) { guard g{frames}; ++starts; for (int k = 0; k < suspends; ++k) co_await park{}; const T t{id}; co_return t; }
static task<T> ret_local(int suspends, long id) { guard g{frames}; ++starts; for (int k = 0; k < suspends; ++k) co_await park{}; T t{id}; co_return t; }
static long idof(const T& t) { return t.own ? t.id : -1; }
static long idof(long v) { return v; }
struct outcome { long v = -99; long exc = 0; const void* p = nullptr; int times = 0; };
template<class R> static task<void> await_l(task<R>& t, outcome& o)
{
    guard g{frames};
    try { if constexpr (std::is_void_v<R>) { co_await t; o.v = 0; } else { auto&& r = co_await t; o.v = idof(r); o.p = &r; } } catch (mine& m) { o.exc = m.id; } catch (copied_badly&) { o.exc = -2; } catch (std::exception& e) { o.exc = -1; }
    ++o.times;
}
template<class R> static task<void> await_r(task<R> t, outcome& o)
{
    guard g{frames};
    try { if constexpr (std::is_void_v<R>) { co_await std::move(t); o.v = 0; } else { R r = co_await std::move(t); o.v = idof(r); o.p = &r; } } catch (mine& m) { o.exc = m.id; } catch (copied_badly&) { o.exc = -2; } catch (std::exception& e) { o.exc = -1; }
    ++o.times;
}
static void finish(task<void>& o) { for (int k = 0; k < 50 && !o.is_ready(); ++k) { CHECK(parked, "the awaiting coroutine is lost"); auto h = parked; parked = nullptr; h.resume(); } CHECK(o.is_ready(), "the awaiting coroutine never finishes"); }
static const char* K;
template<class R, class Mk> static void one(const char* kind, Mk mk, long id, const void* addr = nullptr)
{
    K = kind;
    for (int mode = 0; mode < 6; ++mode) for (int susp = 0; susp < 3; ++susp) for (long thr : {0l, 5l})
    {
        starts = 0; parked = nullptr; outcome o; std::string d = std::string(kind) + ", " + (mode == 0 ? "awaited as lvalue" : mode == 1 ? "awaited as rvalue" : mode == 2 ? "abandoned while suspended" : mode == 3 ? "resumed by hand" : mode == 4 ? "never started" : "awaited after it finished") + ", " + std::to_string(susp) + " suspensions, " + (thr ? "throws" : "returns");
        {
            task<R> t = body<R>(susp, thr, mk); CHECK(starts == 0, "%s: the body ran before it was awaited", d.c_str()); CHECK(!t.is_ready(), "%s: ready before it ran", d.c_str());
            if constexpr (!std::is_void_v<R>) { bool threw = false; try { (void)t.promise().result(); } catch (std::runtime_error&) { threw = true; } CHECK(threw, "%s: the result of an unfinished task does not throw", d.c_str()); }
            if (mode == 4) { CHECK(t.destroy() && !t.destroy(), "%s: destroy", d.c_str()); }
            else if (mode == 2) { if (!susp) continue; auto w = await_l<R>(t, o); w.resume(); CHECK(o.times == 0, "%s: continues too early", d.c_str()); w.destroy(); }
            else
            {
                if (mode == 3 || mode == 5) { for (int k = 0; k <= susp; ++k) { bool more = t.resume(); CHECK(more == (k < susp), "%s: resume() returned %d at step %d", d.c_str(), more, k); } parked = nullptr; CHECK(t.is_ready() && !t.resume(), "%s: not ready after it finished", d.c_str()); }
                if (mode == 3) { for (int k = 0; k < 2; ++k) { outcome u; try { if constexpr (std::is_void_v<R>) { t.promise().result(); u.v = 0; } else { auto&& r = t.promise().result(); u.v = idof(r); u.p = &r; } } catch (mine& m) { u.exc = m.id; } o = u; } o.times = 1; }
                else if (mode == 1) { auto w = await_r<R>(std::move(t), o); w.resume(); finish(w); }
                else { auto w = await_l<R>(t, o); w.resume(); finish(w); if (!thr) { outcome o2; auto w2 = await_l<R>(t, o2); w2.resume(); CHECK(w2.is_ready() && o2.v == o.v && o2.exc == o.exc, "%s: a second look at the result gives %ld instead of %ld", d.c_str(), o2.v, o.v); } }
                CHECK(o.times == 1, "%s: the awaiter continued %d times", d.c_str(), o.times); CHECK(starts == 1, "%s: the body ran %d times", d.c_str(), starts);
                if (thr) CHECK(o.exc == thr, "%s: the exception became value %ld, exception %ld", d.c_str(), o.v, o.exc);
                else { CHECK(o.exc == 0 && o.v == id, "%s: result %ld (exception %ld) instead of %ld", d.c_str(), o.v, o.exc, id); if (addr) CHECK(o.p == addr, "%s: another object is returned", d.c_str()); }
            }
        }
        CHECK(frames == 0, "%s: %ld coroutine frames leaked", d.c_str(), frames); CHECK(live == (addr ? 1 : 0), "%s: %ld values leaked", d.c_str(), live);
    }
}
int main()
{
    watchdog(30); scenario("tasks");
    one<void>("task<void>", [] {}, 0); one<long>("task<long>", [] { return 41l; }, 41); one<const long>("task<const long>", [] { return 42l; }, 42);
    one<T>("task<T>", [] { return T{43}; }, 43); one<const T>("task<const T>", [] { return T{44}; }, 44);
    { T cell{45}; one<T&>("task<T&>", [&]() -> T& { return cell; }, 45, &cell); one<const T&>("task<const T&>", [&]() -> const T& { return cell; }, 45, &cell); }
    for (int susp = 0; susp < 2; ++susp) for (bool thr : {false, true}) for (bool r : {false, true})
    {
        outcome o; { auto t = ret_copy(susp, 46); auto w = r ? await_r<T>(std::move(t), o) : await_l<T>(t, o); copy_throws = thr; w.resume(); finish(w); copy_throws = false; }
        CHECK(thr ? o.exc == -2 : o.v == 46 && !o.exc, "task<T> returning a copy, copy %s: value %ld exception %ld", thr ? "throws" : "works", o.v, o.exc); CHECK(live == 0 && frames == 0, "leak after a returned copy");
        outcome o2; { auto t = ret_local(susp, 47); auto w = r ? await_r<T>(std::move(t), o2) : await_l<T>(t, o2); w.resume(); finish(w); } CHECK(o2.v == 47 && live == 0 && frames == 0, "task<T> returning a local: %ld", o2.v);
    }
    scenario("moving tasks");
    for (int r = 0; r < 20000; ++r)
    {
        std::string h; struct S { task<T> t; long id = 0; bool started = false; bool done = false; } s[3]; long expect = 0;
        for (int k = 0, n = 1 + rnd() % 10; k < n; ++k)
        {
            int a = rnd() % 3, b = rnd() % 3; h += " " + std::to_string(a) + std::to_string(b);
            switch (rnd() % 5)
            {
                case 0: s[a].t = ret_local(1, r + k); s[a].id = r + k; s[a].started = s[a].done = false; h += "new"; break;
                case 1: s[a].t = std::move(s[b].t); if (a != b) { s[a].id = s[b].id; s[a].started = s[b].started; s[a].done = s[b].done; s[b].id = 0; s[b].started = s[b].done = false; } h += "="; break;
                case 2: { task<T> x{std::move(s[b].t)}; s[a].t = std::move(x); if (a != b) { s[a].id = s[b].id; s[a].started = s[b].started; s[a].done = s[b].done; s[b].id = 0; s[b].started = s[b].done = false; } h += "move"; break; }
                case 3: CHECK(s[a].t.destroy() == (s[a].id != 0), "history%s: destroy", h.c_str()); s[a].id = 0; s[a].started = s[a].done = false; h += "destroy"; break;
                case 4: if (s[a].id) { s[a].t.resume(); if (s[a].started) s[a].done = true; s[a].started = true; } h += "resume"; break;
            }
            expect = 0; long vals = 0; for (auto& x : s) { expect += x.started && !x.done; vals += x.done; }
            CHECK(frames == expect, "history%s: %ld bodies alive instead of %ld", h.c_str(), frames, expect); CHECK(live == vals, "history%s: %ld results alive instead of %ld", h.c_str(), live, vals);
            for (auto& x : s) { CHECK(x.t.is_ready() == (x.id == 0 || x.done), "history%s: is_ready", h.c_str()); CHECK((x.t.handle() != nullptr) == (x.id != 0), "history%s: handle", h.c_str()); if (x.done) CHECK(idof(x.t.promise().result()) == x.id, "history%s: result of another task", h.c_str()); }
        }
    }
    CHECK(live == 0 && frames == 0, "tasks leaked");
    std::printf("no failing input found\n"); std::fflush(stdout); _exit(0);
}
