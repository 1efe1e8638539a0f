// RUN: -O1 -fsanitize=address,undefined | src/detail/task_self_deleting.cpp src/event.cpp | 60
#include "rp.hpp"
#include <coro/detail/task_self_deleting.hpp>
#include <memory>
using namespace rp;
static long live; static int entered, left, downs; static std::coroutine_handle<> parked; static bool threw;
struct T { long* p; T() : p(new long(1)) { ++live; } T(T&& o) noexcept : p(o.p) { o.p = nullptr; ++live; } ~T() { delete p; --live; } };
struct park { bool now; bool await_ready() { return now; } void await_suspend(std::coroutine_handle<> h) { parked = h; } void await_resume() {} };
static coro::task<void> sub(bool suspend, int where) { T mine; co_await park{!suspend}; if (where == 2) throw 2; co_return; }
static coro::task<void> user(T, bool suspend, int where) { T local; ++entered; if (where == 1) throw 1; co_await sub(suspend, where); T other; if (where == 3) throw 3; ++left; co_return; }
template<typename X> static void go(X& t) { if constexpr (std::is_void_v<decltype(t.resume())>) t.resume(); else { volatile bool b = t.resume(); (void)b; } }
struct owner { long count = 1; };
int main()
{
    watchdog(20);
    for (int suspend = 0; suspend < 2; ++suspend) for (int where = 0; where < 4; ++where) for (int fs = 0; fs < 2; ++fs) for (int how = 0; how < 4; ++how)
    {
        char d[99]; std::snprintf(d, sizeof d, "suspends %d, throws at %d, owner %d, way %d", suspend, where, fs, how); scenario("detached tasks");
        entered = left = downs = 0; parked = nullptr; auto own = std::make_unique<owner>();
        auto t = coro::detail::make_task_self_deleting(user(T{}, suspend, where));
        if (fs) t.promise().user_final_suspend([o = &own]() { ++downs; CHECK(live == 0, "the owner is told although %ld values of the task are alive", live); --(*o)->count; o->reset(); });
        CHECK(entered == 0, "%s: starts before it is resumed", d);
        if (how == 3) { t.handle().destroy(); CHECK(live == 0 && downs == 0 && entered == 0, "%s: a destroyed task leaves %ld values, counts down %d times", d, live, downs); continue; }
        if (how == 1) { auto u = std::move(t); u.handle().resume(); } else if (how == 2) { auto u = coro::detail::make_task_self_deleting(user(T{}, false, 0)); u.handle().destroy(); u = std::move(t); go(u); } else go(t);
        if (suspend && where != 1) { CHECK(downs == 0 && entered == 1 && left == 0 && parked, "%s: counted down while it is suspended", d); auto h = parked; parked = nullptr; h.resume(); }
        CHECK(entered == 1 && left == (where == 0), "%s: body entered %d times, left %d times", d, entered, left);
        CHECK(downs == fs, "%s: counted down %d times", d, downs); CHECK(live == 0, "%s: %ld values leaked", d, live);
    }
    std::printf("no failing input found\n"); std::fflush(stdout); std::exit(0);
}
