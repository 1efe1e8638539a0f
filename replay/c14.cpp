// RUN: -O1 -fno-access-control -fsanitize=address,undefined -fno-sanitize=vptr,signed-integer-overflow -DLIBCORO_FEATURE_NETWORKING | src/default_executor.cpp src/scheduler.cpp src/thread_pool.cpp src/event.cpp src/mutex.cpp src/sync_wait.cpp src/detail/task_self_deleting.cpp src/detail/pipe.cpp src/detail/timer_handle.cpp src/net/socket.cpp src/net/ip_address.cpp src/poll.cpp | 60
// The real scheduler in manual mode; a stand-in clock and notifier play any order of timeouts and events.
#include "rp.hpp"
#include <coro/coro.hpp>
#include <coro/when_any.hpp>
#include <cstring>
#include <iostream>
#include <list>
#include <map>
#include <poll.h>
using namespace rp; using namespace coro; using namespace std::chrono_literals;
static int64_t clk = 1'000'000'000'000, armed = -1; static std::map<int, detail::poll_info*> regs; static std::map<detail::poll_info*, poll_status> delivered; static bool fail_watch = false, failed = false, setup = true; static char log_[400]; static int64_t step;
static void say(const char* f, long a = 0, long b = 0) { size_t n = std::strlen(log_); if (n > 300) { std::memmove(log_, log_ + 150, n - 149); n -= 150; } std::snprintf(log_ + n, sizeof log_ - n, f, a, b); }
#define BAD(...) do { std::printf("FAILING INPUT: "); std::printf(__VA_ARGS__); std::printf(" (history: %s)\n", log_); std::fflush(stdout); _exit(1); } while (0)
std::chrono::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept { return time_point{std::chrono::nanoseconds{clk}}; }
namespace coro::detail
{
io_notifier_epoll::io_notifier_epoll() : m_fd(-1) {}
io_notifier_epoll::~io_notifier_epoll() {}
auto io_notifier_epoll::watch_timer(const timer_handle&, std::chrono::nanoseconds d) -> bool { armed = clk + std::max<int64_t>(d.count(), 1); return true; }
auto io_notifier_epoll::unwatch_timer(const timer_handle&) -> bool { armed = -1; return true; }
auto io_notifier_epoll::watch(fd_t, poll_op, void*, bool, bool) -> bool { return true; }
auto io_notifier_epoll::watch(poll_info& pi) -> bool { if (fail_watch || regs.count(pi.m_fd)) { failed = true; return false; } regs[pi.m_fd] = &pi; return true; }
auto io_notifier_epoll::unwatch(fd_t, poll_op) -> bool { return true; }
auto io_notifier_epoll::unwatch(poll_info& pi) -> bool { auto i = regs.find(pi.m_fd); if (i == regs.end()) return false; if (i->second != &pi) BAD("the registration of another poll on descriptor %d is removed", pi.m_fd); regs.erase(i); return true; }
auto io_notifier_epoll::next_events(std::vector<std::pair<poll_info*, poll_status>>& ev, std::chrono::milliseconds) -> void
{
    std::vector<std::pair<poll_info*, poll_status>> v; const poll_status s[] = {poll_status::read, poll_status::write, poll_status::error, poll_status::closed, poll_status::cancelled};
    if (armed >= 0 && armed <= clk) { armed = -1; v.push_back({static_cast<poll_info*>(const_cast<void*>(scheduler::m_timer_ptr)), poll_status::read}); }
    for (auto& [fd, pi] : regs) if (rnd() % 4 == 0) { v.push_back({pi, s[rnd() % 5]}); delivered[pi] = v.back().second; }
    v.push_back({static_cast<poll_info*>(const_cast<void*>(scheduler::m_schedule_ptr)), poll_status::read});
    while (!v.empty()) { size_t k = rnd() % v.size(); ev.push_back(v[k]); v.erase(v.begin() + k); }
}
} // namespace coro::detail
struct op { int kind; int fd; bool registered = false, done = false; int64_t due = -1, started = 0; poll_status st{}; int n = 0; const char* name; task<void> t; detail::poll_info* pi = nullptr; };
static std::list<op> ops; static scheduler* sch;
static task<void> do_poll(op& o, int64_t ms) { o.st = co_await sch->poll(o.fd, poll_op::read, std::chrono::milliseconds{ms}); o.done = true; ++o.n; }
template<typename D> static task<void> do_yield(op& o, D d) { co_await sch->yield_for(d); o.done = true; ++o.n; }
static task<void> do_until(op& o, time_point t, bool at) { if (at) co_await sch->schedule_at(t); else co_await sch->yield_until(t); o.done = true; ++o.n; }
static event* never;
static task<void> waits() { co_await *never; }
template<typename D> static task<void> do_timed(op& o, D d, bool stop) { if (stop) { std::stop_source s; auto r = co_await sch->schedule(s, waits(), d); if (!r && !s.stop_requested()) BAD("timed out without a stop request"); if (r) o.st = poll_status::read; else o.st = poll_status::timeout; } else { auto r = co_await sch->schedule(waits(), d); o.st = r ? poll_status::read : poll_status::timeout; } o.done = true; ++o.n; }
static void invariant(const char* when)
{
    int64_t m = -1; for (auto& o : ops) if (!o.done && o.due >= 0 && (m < 0 || o.due < m)) m = o.due;
    if (m >= 0 && m < (INT64_MAX >> 1) && (armed < 0 || armed > std::max(m, clk) + 1'000'000)) BAD("%s: the smallest deadline is in %ld ns, the timer is %s%ld", when, (long)(m - clk), armed < 0 ? "not armed " : "armed in ", (long)(armed - clk));
    for (auto& [fd, pi] : regs) { bool own = false; for (auto& o : ops) own |= !o.done && o.pi == pi; if (!own) BAD("%s: descriptor %d stays registered for a poll that is gone", when, fd); }
    size_t timers = 0; for (auto& o : ops) timers += !o.done && o.due >= 0; if (sch->m_timed_events.size() != timers) BAD("%s: %zu timers for %zu pending waits", when, sch->m_timed_events.size(), timers);
    size_t pend = 0; for (auto& o : ops) pend += !o.done; if (sch->size() > pend) BAD("%s: size() is %zu, %zu operations are pending", when, sch->size(), pend);
}
int main()
{
    std::cerr.setstate(std::ios::failbit); watchdog(20); scenario("timers"); auto s = scheduler::make_unique({.thread_strategy = scheduler::thread_strategy_t::manual, .execution_strategy = scheduler::execution_strategy_t::process_tasks_inline}); sch = s.get(); event nev; never = &nev; auto t0 = time(nullptr);
    for (int round = 0; round < 6000 && time(nullptr) - t0 < 12; ++round)
    {
        g_beat.fetch_add(1); log_[0] = 0; int steps = 5 + rnd() % 25;
        for (step = 0; step < steps + 40; ++step)
        {
            bool closing = step >= steps; unsigned c = closing ? 0 : rnd() % 3;
            if (c == 1 && ops.size() < 12)
            {
                op& o = ops.emplace_back(); o.kind = rnd() % 8; o.started = clk; int64_t amt = int64_t(rnd() % 6'000'000) - 500'000; if (rnd() % 8 == 0) amt = 0;
                if (o.kind <= 2) { o.fd = 100 + rnd() % 6; int64_t ms = rnd() % 3 == 0 ? 0 : rnd() % 6; if (ms && rnd() % 6 == 0) ms = INT64_MAX / 1000000 + rnd() % (INT64_MAX / 2000); fail_watch = ms < 1000 && rnd() % 6 == 0; if (ms > 1000) { static int u = 1000; o.fd = u++; } failed = false; o.due = ms > 0 ? (ms > 1000 ? INT64_MAX : clk + ms * 1'000'000) : -1; o.name = "poll"; say("poll(%ld, %ld ms); ", o.fd, ms); o.t = do_poll(o, ms); o.t.resume(); fail_watch = false; o.registered = !failed; if (o.registered) o.pi = regs[o.fd]; else if (!ms && (!o.done || o.st != poll_status::error)) BAD("poll() that cannot be registered, without a timeout: %s", o.done ? "no error" : "waits forever"); }
                else if (o.kind == 3) { o.name = "yield_for(ns)"; say("yield_for(%ld ns); ", amt); o.due = amt > 0 ? clk + amt : -1; o.t = do_yield(o, std::chrono::nanoseconds{amt}); o.t.resume(); }
                else if (o.kind == 4) { amt = amt / 1'000'000; o.name = "yield_for(ms)"; say("yield_for(%ld ms); ", amt); o.due = amt > 0 ? clk + amt * 1'000'000 : -1; o.t = do_yield(o, std::chrono::milliseconds{amt}); o.t.resume(); }
                else if (o.kind == 5) { o.name = "yield_until"; say("yield_until(now%+ld ns); ", amt); o.due = amt > 0 ? clk + amt : -1; o.t = do_until(o, time_point{std::chrono::nanoseconds{clk + amt}}, rnd() % 2); o.t.resume(); }
                else if (nev.m_state.load() == &nev) { o.done = true; }
                else { amt = std::max<int64_t>(amt, 1); bool us = rnd() % 2, stop = rnd() % 2; o.name = "schedule(task, timeout)"; if (us) amt = (amt / 1000 + 1) * 1000; say("schedule(task, %ld ns); ", amt); o.due = (clk + amt); o.t = us ? do_timed(o, std::chrono::microseconds{amt / 1000}, stop) : do_timed(o, std::chrono::nanoseconds{amt}, stop); o.t.resume(); if (!sch->m_timed_events.empty()) for (auto& [tp, pi] : sch->m_timed_events) if (tp.time_since_epoch().count() >= o.due && tp.time_since_epoch().count() < o.due + 1'000'000) { bool used = false; for (auto& p : ops) used |= &p != &o && !p.done && p.due == tp.time_since_epoch().count(); if (!used) { o.due = tp.time_since_epoch().count(); break; } } }
                if (o.done && o.kind >= 3 && o.kind <= 5) BAD("%s ended at once", o.name); invariant("after starting");
            }
            else
            {
                int64_t m = INT64_MAX; for (auto& o : ops) if (!o.done && o.due >= 0) m = std::min(m, o.due);
                switch (rnd() % 4) { case 0: break; case 1: if (m != INT64_MAX && m > clk && m < clk + 100'000'000) clk = m + int64_t(rnd() % 3) - 1; break; default: clk += rnd() % 2'000'000; } if (armed > clk && armed < clk + 50'000'000 && rnd() % 2) clk = armed;
                say("[turn +%ld us] ", (clk - 1'000'000'000'000) / 1000); delivered.clear(); sch->process_events(0ms);
                for (auto& o : ops) if (o.n == 1)
                {
                    ++o.n; bool ev = o.pi && delivered.count(o.pi);
                    if (o.kind <= 2) { if (o.registered || o.due >= 0) { if (o.st == poll_status::timeout) { if (o.due < 0 || clk < o.due) BAD("poll(%d) timed out %ld ns early", o.fd, (long)(o.due - clk)); } else if (!ev || delivered[o.pi] != o.st) BAD("poll(%d) reports %d, which did not happen", o.fd, (int)o.st); } }
                    else if (o.due >= 0 && clk < o.due) BAD("%s ended %ld ns early", o.name, (long)(o.due - clk));
                    if (o.kind > 5 && o.st != poll_status::timeout) BAD("%s reports a result, the task never completed", o.name);
                }
                else if (o.n > 2) BAD("%s was resumed twice", o.name);
                for (auto i = ops.begin(); i != ops.end();) if (i->done) { auto x = i++; ops.erase(x); } else { if (i->pi && delivered.count(i->pi)) BAD("%s: its event is lost", i->name); ++i; }
                invariant("after a turn");
            }
        }
        // everything ends: time passes, and every descriptor becomes ready
        for (int k = 0; k < 400 && !ops.empty(); ++k) { clk += 10'000'000; if (k > 300) clk = std::max(clk, (INT64_MAX >> 2)); delivered.clear(); sch->process_events(0ms); for (auto i = ops.begin(); i != ops.end();) if (i->done) { auto x = i++; ops.erase(x); } else ++i; }
        if (!ops.empty()) BAD("%s never ends", ops.front().name);
        nev.set(); nev.reset(); clk = 1'000'000'000'000 + (clk & 0xFFFFF);
    }
    std::printf("quiet\n"); std::fflush(stdout); _exit(0);
}
