// RUN: -O1 -fsanitize=address,undefined | src/detail/io_notifier_epoll.cpp src/detail/timer_handle.cpp src/poll.cpp src/detail/pipe.cpp | 60
// A stand-in kernel behind epoll_*: it keeps the registrations, delivers random batches and compares every report.
#include "rp.hpp"
#include <coro/detail/io_notifier_epoll.hpp>
#include <coro/detail/poll_info.hpp>
#include <coro/detail/timer_handle.hpp>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <sys/epoll.h>
#include <sys/timerfd.h>
using namespace rp; using namespace coro; using coro::detail::io_notifier_epoll; using coro::detail::poll_info; using std::chrono::nanoseconds;
struct reg { epoll_event ev; bool armed; };
static std::map<int, reg> K; static std::vector<std::pair<int, uint32_t>> next_batch; static int fail_add = 0, adds = 0; static itimerspec last_ts; static int last_tfd = -1, settimes = 0, wait_ms = 0;
extern "C" int epoll_create1(int) { return 777; }
extern "C" int timerfd_create(int, int) { return 778; }
extern "C" int epoll_ctl(int ep, int op, int fd, epoll_event* e)
{
    CHECK(ep == 777, "epoll_ctl on descriptor %d", ep);
    if (op == EPOLL_CTL_ADD) { if (++adds == fail_add) { errno = ENOSPC; return -1; } if (fd < 0 || K.count(fd)) { errno = EEXIST; return -1; } K[fd] = {*e, true}; return 0; }
    if (!K.count(fd)) { errno = ENOENT; return -1; }
    if (op == EPOLL_CTL_MOD) { K[fd] = {*e, true}; return 0; }
    K.erase(fd); return 0;
}
extern "C" int epoll_wait(int, epoll_event* out, int max, int ms)
{
    wait_ms = ms; int n = 0;
    for (auto [fd, fl] : next_batch) { CHECK(n < max, "batch buffer"); auto& r = K.at(fd); out[n] = {fl, r.ev.data}; ++n; if (r.ev.events & EPOLLONESHOT) r.armed = false; }
    return n;
}
extern "C" int timerfd_settime(int fd, int fl, const itimerspec* t, itimerspec*) { CHECK(fl == 0, "absolute timer"); last_ts = *t; last_tfd = fd; ++settimes; return 0; }
static const char* nm(poll_status s) { switch (s) { case poll_status::read: return "read"; case poll_status::write: return "write"; case poll_status::timeout: return "timeout"; case poll_status::error: return "error"; case poll_status::closed: return "closed"; case poll_status::cancelled: return "cancelled"; } return "?"; }
int main()
{
    watchdog(20); scenario("start");
    for (int r = 0; r < 20000; ++r)
    {
        scenario("batches"); K.clear(); fail_add = 0; adds = 0; io_notifier_epoll n;
        struct P { std::unique_ptr<poll_info> pi; int fd, cfd; poll_op op; bool over = false; };
        std::vector<P> ps; int internal[2]{}; bool has_int[2]{};
        for (int k = 0; k < 2; ++k) if (rnd() % 2) { CHECK(n.watch(10 + k, poll_op::read, &internal[k], true), "watch of an internal event fails"); has_int[k] = true; auto f = K[10 + k].ev.events; CHECK(!(f & EPOLLONESHOT) && (f & EPOLLIN) && !(f & EPOLLOUT), "internal event registered with flags %x", f); }
        for (int k = 0, c = rnd() % 12; k < c; ++k)
        {
            P p; p.fd = 100 + k; p.cfd = rnd() % 2 ? 200 + k : -1; const poll_op ops[] = {poll_op::read, poll_op::write, poll_op::read_write}; p.op = ops[rnd() % 3];
            p.pi = std::make_unique<poll_info>(p.fd, p.op, p.cfd >= 0 ? std::optional<poll_stop_token>(poll_stop_token{p.cfd}) : std::nullopt);
            bool f = rnd() % 10 == 0; fail_add = f ? adds + 1 : 0; bool w = n.watch(*p.pi); fail_add = 0;
            CHECK(w == !f, "watch(poll) returned %d when its registration %s", w, f ? "failed" : "succeeded");
            if (f) continue;
            CHECK(K.count(p.fd), "watched descriptor is not registered"); auto e = K[p.fd].ev.events;
            CHECK((e & (EPOLLIN | EPOLLOUT)) == (uint32_t)p.op && (e & EPOLLONESHOT) && !(e & ~(uint32_t)(EPOLLIN | EPOLLOUT | EPOLLONESHOT | EPOLLRDHUP | EPOLLERR | EPOLLHUP | EPOLLET)), "poll for op %d registered with flags %x", (int)p.op, e);
            if (p.cfd >= 0) CHECK(K.count(p.cfd) && (K[p.cfd].ev.events & EPOLLIN), "stop token is not registered");
            ps.push_back(std::move(p));
        }
        for (int b = 0; b < 4; ++b)
        {
            next_batch.clear(); std::vector<std::pair<void*, poll_status>> want;
            for (auto& [fd, rg] : K)
            {
                if (!rg.armed || rnd() % 2 || next_batch.size() >= 16) continue;
                void* who; bool cancel = false; uint32_t can = (rg.ev.events & (EPOLLIN | EPOLLOUT)) | EPOLLERR | EPOLLHUP | (rg.ev.events & EPOLLRDHUP);
                if (fd < 100) who = &internal[fd - 10]; else { who = nullptr; for (auto& p : ps) if (p.fd == fd || p.cfd == fd) { who = p.pi.get(); cancel = p.cfd == fd; } }
                uint32_t fl = (uint32_t)rnd() & can; if (rnd() % 3 == 0) fl &= ~(uint32_t)(EPOLLIN | EPOLLOUT); if (!fl) fl = EPOLLHUP;
                auto s = cancel ? poll_status::cancelled : fl & EPOLLIN ? poll_status::read : fl & EPOLLOUT ? poll_status::write : fl & EPOLLERR ? poll_status::error : poll_status::closed;
                next_batch.push_back({fd, fl}); want.push_back({who, s});
            }
            std::vector<std::pair<poll_info*, poll_status>> got; n.next_events(got, std::chrono::milliseconds{b});
            CHECK(wait_ms == b, "waits %d ms instead of %d", wait_ms, b);
            for (size_t k = 0; k < got.size() || k < want.size(); ++k)
            {
                CHECK(k < want.size(), "event %zu reported (%s), the kernel delivered %zu", k, nm(got[k].second), want.size());
                CHECK(k < got.size(), "event %zu of a batch of %zu is dropped (flags %x)", k, want.size(), next_batch[k].second);
                CHECK(got[k].first == want[k].first, "event %zu of descriptor %d attributed to another object", k, next_batch[k].first);
                CHECK(got[k].second == want[k].second, "descriptor %d, kernel flags %x, reported as %s instead of %s", next_batch[k].first, next_batch[k].second, nm(got[k].second), nm(want[k].second));
            }
            for (auto& g : got) for (auto& p : ps) if (p.pi && (void*)p.pi.get() == (void*)g.first) { n.unwatch(*p.pi); p.over = true; }      // what the scheduler does with it
            for (auto& p : ps) if (p.pi && !p.over && rnd() % 6 == 0) { n.unwatch(*p.pi); p.over = true; }                                    // its timeout
            for (auto& p : ps)
            {
                if (p.over) { p.pi.reset(); CHECK(!K.count(p.fd), "descriptor %d stays registered for a poll that is over", p.fd); CHECK(p.cfd < 0 || !K.count(p.cfd), "the stop token of descriptor %d stays registered for a poll that is over", p.fd); }
                else { CHECK(K.count(p.fd) && K[p.fd].armed, "descriptor %d of a poll that still waits is not registered any more", p.fd); CHECK(p.cfd < 0 || K.count(p.cfd), "the stop token of a poll that still waits is not registered any more"); }
            }
            for (int k = 0; k < 2; ++k) CHECK(!has_int[k] || K.count(10 + k), "an internal registration is gone");
        }
    }
    scenario("timers");
    {
        io_notifier_epoll n; int o; detail::timer_handle t{&o, n};
        for (int r = 0; r < 100000; ++r)
        {
            long d; switch (rnd() % 4) { case 0: d = (long)(rnd() % 5) - 2; break; case 1: d = rnd() % 3000000000ll; break; case 2: d = (rnd() % 1000) * 1000000000l + (long)(rnd() % 3) - 1; break; default: d = rnd() >> (1 + rnd() % 60); }
            settimes = 0; CHECK(n.watch_timer(t, nanoseconds{d}), "watch_timer fails"); CHECK(settimes == 1 && last_tfd == t.get_fd(), "arms another timer");
            auto s = last_ts.it_value.tv_sec, ns = last_ts.it_value.tv_nsec;
            CHECK(ns >= 0 && ns < 1000000000 && s >= 0 && (s || ns), "a timer of %ld ns is set to %ld s %ld ns", d, (long)s, (long)ns);
            CHECK(last_ts.it_interval.tv_sec == 0 && last_ts.it_interval.tv_nsec == 0, "the timer repeats");
            if (d > 0) CHECK(s == d / 1000000000 && ns == d % 1000000000, "a timer of %ld ns is set to %ld s %ld ns", d, (long)s, (long)ns); else CHECK(s == 0 && ns == 1, "a due timer waits %ld s %ld ns", (long)s, (long)ns);
        }
        CHECK(n.unwatch_timer(t) && last_ts.it_value.tv_sec == 0 && last_ts.it_value.tv_nsec == 0, "unwatch_timer does not disarm");
    }
    std::printf("no failing input found\n"); std::fflush(stdout); _exit(0);
}
