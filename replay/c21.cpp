// RUN: -O1 -fsanitize=address,undefined -fno-sanitize=vptr -DLIBCORO_FEATURE_NETWORKING | src/net/udp/peer.cpp src/net/io_status.cpp src/net/socket.cpp src/net/ip_address.cpp src/poll.cpp src/thread_pool.cpp src/event.cpp src/detail/io_notifier_epoll.cpp src/detail/timer_handle.cpp src/detail/pipe.cpp src/detail/task_self_deleting.cpp src/sync_wait.cpp | 60
// A stand-in kernel behind sendto/recvfrom and scheduler::poll plays fault sequences.
#include "rp.hpp"
#include <cstring>
#include <coro/net/udp/peer.hpp>
#include <coro/sync_wait.hpp>
#include <sys/socket.h>
using namespace rp; using namespace coro; using net::io_status; using net::socket_address; using kind = net::io_status::kind;
static std::byte* base; static size_t total; static long got; static bool reading, any, faults; static int polls, last_errno, the_fd; static bool poll_bad; static poll_status bad_status; static long asked_ms; static sockaddr_storage want_addr; static socklen_t want_len; static bool want_v6; static char why[200];
static const int errs[] = {EAGAIN, ECONNRESET, EPIPE, ENOBUFS, EINTR, ENOTCONN, ECONNREFUSED, EMSGSIZE, EIO};
#define BAD(...) do { std::snprintf(why, sizeof why, __VA_ARGS__); FAIL("%s (%s buffer of %zu bytes)", why, reading ? "reading into a" : "writing a", total); } while (0)
static void common(int fd, const void* p, size_t n, const char* f) { any = true; if (fd != the_fd) BAD("%s on another socket", f); if (p != base) BAD("%s at +%td", f, static_cast<const std::byte*>(p) - base); if (n != total) BAD("%s of %zu bytes", f, n); if (got >= 0) BAD("a second datagram is moved"); last_errno = 0; poll_bad = false; }
extern "C" ssize_t sendto(int fd, const void* p, size_t n, int, const sockaddr* a, socklen_t l)
{
    if (reading) BAD("sendto while reading"); common(fd, p, n, "sendto"); if (l != want_len || std::memcmp(a, &want_addr, l)) BAD("sent to another address");
    if (faults && rnd() % 3 == 0) { errno = last_errno = errs[rnd() % 9]; return -1; } return got = n;
}
extern "C" ssize_t recvfrom(int fd, void* p, size_t n, int, sockaddr* a, socklen_t* l)
{
    if (!reading) BAD("recvfrom while writing"); common(fd, p, n, "recvfrom"); if (!a || !l || *l < sizeof(sockaddr_in6)) BAD("no room for the address of the sender");
    if (faults && rnd() % 3 == 0) { errno = last_errno = errs[rnd() % 9]; return -1; }
    std::memcpy(a, &want_addr, want_len); *l = want_len; size_t k = rnd() % (n + 1); std::memset(p, 0x5A, k); return got = k;
}
auto coro::scheduler::poll(fd_t fd, poll_op op, std::chrono::milliseconds t, std::optional<poll_stop_token>) -> task<poll_status>
{
    ++polls; any = true; if (fd != the_fd || (op == poll_op::read) != reading) BAD("polls for something else"); if (t.count() != asked_ms) BAD("polls for %ld ms of %ld", static_cast<long>(t.count()), asked_ms);
    last_errno = 0; const poll_status b[] = {poll_status::timeout, poll_status::error, poll_status::closed, poll_status::cancelled}; poll_bad = faults && rnd() % 3 == 0;
    if (poll_bad) co_return bad_status = b[rnd() % 4]; co_return reading ? poll_status::read : poll_status::write;
}
coro::scheduler::~scheduler() {}
template<typename E> static void one(net::udp::peer& p, bool bound, const socket_address& to)
{
    size_t n = rnd() % 5 ? 1 + rnd() % 30 : 0; std::vector<E> mem(n + 1); std::span<E> sp{mem.data(), n}; total = n * sizeof(E); base = reinterpret_cast<std::byte*>(mem.data()); got = -1; any = false; faults = rnd() % 3; polls = 0; asked_ms = rnd() % 2 * 50; last_errno = 0; poll_bad = false; the_fd = p.socket().native_handle(); io_status st; std::chrono::milliseconds ms{asked_ms};
    if (reading)
    {
        auto [s, a, r] = sync_wait(p.read_from(sp, ms)); st = s;
        if (!bound) { if (st.type != kind::udp_not_bound || any || !r.empty()) BAD("an unbound peer reports %d", (int)st.type); return; }
        if (!total) { if (any && got < 0 && st.is_ok()) BAD("ok without a datagram"); return; }
        if (r.size() != static_cast<size_t>(got < 0 ? 0 : got)) BAD("%zu bytes reported, %ld received", r.size(), got);
        if (!r.empty() && r.data() != base) BAD("reported at +%td", r.data() - base);
        if (got >= 0 && (a.data().second != want_len || std::memcmp(a.data().first, &want_addr, want_len))) BAD("reported sender is not the sender (%s)", want_v6 ? "ipv6" : "ipv4");
    }
    else { st = sync_wait(p.write_to(to, sp, ms)); if (!total) return; }
    io_status w{kind::ok}; if (poll_bad) w = net::make_io_status_from_poll_status(bad_status); else if (last_errno) w = net::make_io_status_from_native(last_errno);
    if (st.type != w.type || st.native_code != w.native_code) BAD("status %d/%d instead of %d/%d", (int)st.type, st.native_code, (int)w.type, w.native_code);
    if (got < 0 && !polls && (st.is_ok() || st.try_again())) BAD("does not wait for readiness");
}
int main()
{
    watchdog(20); alignas(64) static char mem[8192]; std::unique_ptr<scheduler> s{reinterpret_cast<scheduler*>(mem)};
    for (int r = 0; r < 8000; ++r)
    {
        scenario("datagrams"); want_v6 = rnd() % 2; auto dom = want_v6 ? net::domain_t::ipv6 : net::domain_t::ipv4; socket_address to{net::ip_address::from_string(want_v6 ? "1:2:3:4:5:6:7:8" : "1.2.3.4", dom), static_cast<uint16_t>(rnd())}; auto [a, l] = to.data(); std::memcpy(&want_addr, a, want_len = l);
        net::udp::peer u{s, dom}; std::unique_ptr<net::udp::peer> b; for (int t = 0; t < 20 && !b; ++t) try { b = std::make_unique<net::udp::peer>(s, socket_address{"127.0.0.1", 0}); } catch (...) {}
        auto use = [&](net::udp::peer& p, bool bound) { for (int k = 0; k < 3; ++k) { reading = rnd() % 2; if (rnd() % 2) one<char>(p, bound, to); else one<std::uint64_t>(p, bound, to); } };
        use(u, false); if (!b) continue; use(*b, true);
        net::udp::peer c{*b}; use(c, true); net::udp::peer m{std::move(c)}; use(m, true); net::udp::peer x{u}; use(x, false); x = m; use(x, true); x = u; use(x, false); x = std::move(m); use(x, true); x = std::move(u); use(x, false); auto& xr = x; x = xr; use(x, false);
    }
    try { std::unique_ptr<scheduler> none; net::udp::peer p{none}; FAIL("a peer without a scheduler is created"); } catch (const std::exception&) {}
    s.release(); std::printf("no failing input found\n"); std::fflush(stdout); _exit(0);
}
