// RUN: -O1 -fsanitize=address,undefined | src/net/ip_address.cpp src/net/socket.cpp src/detail/pipe.cpp src/detail/timer_handle.cpp src/detail/io_notifier_epoll.cpp src/poll.cpp | 60
#include "rp.hpp"
#include <coro/net/socket.hpp>
#include <coro/net/socket_address.hpp>
#include <coro/detail/pipe.hpp>
#include <coro/detail/timer_handle.hpp>
#include <coro/detail/io_notifier_epoll.hpp>
#include <coro/poll.hpp>
#include <map>
#include <set>
#include <memory>
#include <string>
#include <cstdarg>
#include <sys/epoll.h>
#include <sys/timerfd.h>
#include <fcntl.h>
#include <sys/syscall.h>
using namespace rp;
static int g_fail = -1, g_calls = 0; static bool g_track = false; static int g_bad = 0;
static bool inject() { return g_track && g_calls++ == g_fail; }
// a close may report an error (EINTR, EIO); the descriptor is gone all the same, on Linux
extern "C" int close(int fd) { if (g_track && fcntl(fd, F_GETFD) == -1) ++g_bad; int r = syscall(SYS_close, fd); if (g_track && r == 0 && rnd() % 8 == 0) { errno = rnd() & 1 ? EINTR : EIO; return -1; } return r; }
extern "C" int setsockopt(int a, int b, int c, const void* d, socklen_t e) { if (inject()) { errno = EPERM; return -1; } return syscall(SYS_setsockopt, a, b, c, d, e); }
extern "C" int bind(int a, const sockaddr* b, socklen_t c) { if (inject()) { errno = EADDRINUSE; return -1; } return syscall(SYS_bind, a, b, c); }
extern "C" int listen(int a, int b) { if (inject()) { errno = EADDRINUSE; return -1; } return syscall(SYS_listen, a, b); }
extern "C" int dup(int a) { if (inject()) { errno = EMFILE; return -1; } return syscall(SYS_dup, a); }
extern "C" int socket(int a, int b, int c) { if (inject()) { errno = EMFILE; return -1; } return syscall(SYS_socket, a, b, c); }
extern "C" int pipe(int* f) noexcept { if (inject()) { errno = EMFILE; return -1; } return syscall(SYS_pipe2, f, 0); }
extern "C" int fcntl(int fd, int c, ...) { va_list l; va_start(l, c); long v = va_arg(l, long); va_end(l); if (c == F_SETFL && inject()) { errno = EPERM; return -1; } return syscall(SYS_fcntl, fd, c, v); }
extern "C" int epoll_create1(int f) noexcept { if (inject()) { errno = EMFILE; return -1; } return syscall(SYS_epoll_create1, f); }
extern "C" int timerfd_create(int a, int b) noexcept { if (inject()) { errno = EMFILE; return -1; } return syscall(SYS_timerfd_create, a, b); }
extern "C" int epoll_ctl(int a, int b, int c, epoll_event* d) noexcept { if (inject()) { errno = EPERM; return -1; } return syscall(SYS_epoll_ctl, a, b, c, d); }
static std::set<int> open_fds()
{
    std::set<int> r; for (int k = 0; k < 200; ++k) if (fcntl(k, F_GETFD) != -1) r.insert(k); return r;
}
using sock = coro::net::socket; using coro::detail::pipe_t; using coro::poll_stop_source;
static std::set<int> base;
static void settle(const char* what, std::set<int> want)
{
    CHECK(g_bad == 0, "%s: a descriptor that is not open is closed", what);
    std::set<int> o; std::string e, x;
    // the sanitizer's own threads open files for a moment: only a descriptor that stays open counts
    for (int k = 0; k < 40; ++k) { o = open_fds(); x.clear(); for (int f : o) if (!base.count(f) && !want.count(f)) x += " " + std::to_string(f); if (x.empty()) break; usleep(50000); }
    for (int f : want) if (f >= 0 && !o.count(f)) e += " " + std::to_string(f);
    CHECK(x.empty(), "%s: descriptor%s stays open although nothing owns it", what, x.c_str());
    CHECK(e.empty(), "%s: descriptor%s was closed although an object owns it", what, e.c_str());
}
template<class T> static void fds(const T& t, std::set<int>& s)
{
    auto in = [&](int f) { if (f >= 0) CHECK(s.insert(f).second, "descriptor %d has two owners", f); };
    if constexpr (std::is_same_v<T, sock>) in(t.native_handle());
    else if constexpr (std::is_same_v<T, pipe_t>) { in(t.read_fd()); in(t.write_fd()); }
    else { in(t.get_token().native_handle()); in(reinterpret_cast<const pipe_t&>(t).write_fd()); }
}
static void same(const std::string& h, const std::set<int>& was, const std::set<int>& is)
{
    auto l = [](const std::set<int>& s) { std::string r; for (int f : s) r += " " + std::to_string(f); return r; };
    CHECK(was == is, "%s: the object moved to has descriptors%s; those of the object it was moved from, which its tokens name, were%s", h.c_str(), l(is).c_str(), l(was).c_str());
}
template<class T, class Mk> static void life(const char* kind, Mk mk)
{
    for (int r = 0; r < 4000; ++r)
    {
        scenario(kind); std::unique_ptr<T> o[3]; std::string h = kind; g_calls = 0; g_fail = r % 3 ? -1 : rnd() % 8; 
        g_track = true;
        for (int k = 0, n = 1 + rnd() % 8; k < n; ++k)
        {
            int a = rnd() % 3, b = rnd() % 3; auto w = " " + std::to_string(a) + std::to_string(b);
            try { switch (rnd() % 7)
            {
                case 0: o[a] = mk(); h += " new" + w; break;
                case 1: o[a].reset(); h += " delete" + w; break;
                case 2: if (o[a] && o[b]) { std::set<int> was, is; fds(*o[b], was); *o[a] = std::move(*o[b]); h += " move=" + w; fds(*o[a], is); same(h, was, is); } break;
                case 3: if (o[b]) { std::set<int> was, is; fds(*o[b], was); auto t = std::make_unique<T>(std::move(*o[b])); o[a] = std::move(t); h += " move" + w; fds(*o[a], is); same(h, was, is); } break;
                case 4: if constexpr (std::is_copy_assignable_v<T>) if (o[a] && o[b]) { *o[a] = *o[b]; h += " copy=" + w; } break;
                case 5: if constexpr (std::is_copy_constructible_v<T>) if (o[b]) { auto t = std::make_unique<T>(*o[b]); o[a] = std::move(t); h += " copy" + w; } break;
                case 6: if constexpr (requires(T t) { t.close(); }) if (o[a]) { o[a]->close(); h += " close" + w; } break;
            } } catch (const std::runtime_error&) { h += " (failed)" + w; }
            std::set<int> want; for (auto& x : o) if (x) fds(*x, want);
            settle(h.c_str(), want);
        }
        for (auto& x : o) x.reset();
        settle((h + " end").c_str(), {}); g_track = false;
    }
}
int main()
{
    watchdog(30); scenario("start"); usleep(300000); base = open_fds();
    life<sock>("socket", [] { return std::make_unique<sock>(syscall(SYS_socket, AF_INET, SOCK_STREAM, 0)); });
    life<pipe_t>("pipe", [] { return std::make_unique<pipe_t>(); });
    life<poll_stop_source>("poll_stop_source", [] { return std::make_unique<poll_stop_source>(); });
    scenario("make_socket");
    for (int kind = 0; kind < 8; ++kind) for (int f = -1; f < 8; ++f)
    {
        g_fail = f; g_calls = 0; g_track = true; sock::options opt{kind & 1 ? sock::type_t::udp : sock::type_t::tcp, kind & 2 ? sock::blocking_t::yes : sock::blocking_t::no};
        try { if (kind & 4) auto s = coro::net::make_socket(opt, coro::net::domain_t::ipv4); else auto s = coro::net::make_accept_socket(opt, {"127.0.0.1", 0}, 4); } catch (const std::exception&) {}
        settle(("make socket kind " + std::to_string(kind) + " when call " + std::to_string(f) + " fails").c_str(), {}); g_track = false;
    }
    g_fail = -1; scenario("timers");
    for (int f = -1; f < 8; ++f)
    {
        g_fail = f; g_calls = 0; g_track = true; auto when = " when call " + std::to_string(f) + " fails";
        try { coro::detail::io_notifier_epoll n; for (int k = 0; k < 3; ++k) { coro::detail::timer_handle t{&n, n}; } } catch (const std::exception&) {}
        settle(("io_notifier and timers" + when).c_str(), {});
        g_calls = 0; try { pipe_t p; } catch (const std::exception&) {}
        settle(("pipe" + when).c_str(), {});
        g_calls = 0; try { poll_stop_source p; } catch (const std::exception&) {}
        settle(("poll_stop_source" + when).c_str(), {}); g_track = false;
    }
    std::printf("no failing input found\n"); std::fflush(stdout); _exit(0);
}
