// RUN: -O1 -fsanitize=address,undefined -fno-sanitize=vptr -DLIBCORO_FEATURE_NETWORKING | src/net/tcp/client.cpp src/net/io_status.cpp src/net/socket.cpp src/net/ip_address.cpp src/poll.cpp src/thread_pool.cpp src/event.cpp src/detail/io_notifier_epoll.cpp src/detail/timer_handle.cpp src/detail/pipe.cpp src/detail/task_self_deleting.cpp src/sync_wait.cpp | 60
// A stand-in kernel behind connect/recv/send and scheduler::poll plays fault sequences.
#include "rp.hpp"
#include <cstring>
#include <coro/net/tcp/client.hpp>
#include <coro/sync_wait.hpp>
#include <sys/socket.h>
using namespace rp; using namespace coro; using net::io_status; using kind = net::io_status::kind;
static std::byte *base; static size_t total, moved; static bool reading, gone; static int faults, polls, last_errno; static bool last_closed, last_poll_bad, sig; static poll_status bad_status; static long asked_ms; static bool any_call; static char why[200];
static std::vector<std::byte> wire;
static int connect_ret, connect_errno, so_err, connects; static poll_status connect_poll; static bool in_connect;
static const int errs[] = {EAGAIN, ECONNRESET, EPIPE, ENOBUFS, EINTR, ENOTCONN, ECONNREFUSED, EMSGSIZE, EIO};
#define BAD(...) do { std::snprintf(why, sizeof why, __VA_ARGS__); FAIL("%s (buffer of %zu bytes, %zu moved so far)", why, total, moved); } while (0)
static ssize_t move(const void* p, size_t n, int fl, bool rd)
{
    any_call = true; auto b = static_cast<const std::byte*>(p); if (rd != reading) BAD("%s during a %s", rd ? "recv" : "send", reading ? "read" : "write");
    if (b < base || b > base + total || n > total - (b - base)) BAD("%s of %zu bytes at +%td is outside the buffer", rd ? "recv" : "send", n, b - base);
    if (static_cast<size_t>(b - base) != moved) BAD("%s at +%td although %zu bytes were moved: a gap or a repetition", rd ? "recv" : "send", b - base, moved);
    if (n == 0) BAD("asks for nothing");
    last_errno = 0; last_closed = last_poll_bad = false;
    if (!rd && !(fl & MSG_NOSIGNAL)) sig = true;
    if (faults && rnd() % 3 == 0) { errno = last_errno = errs[rnd() % 9]; if (last_errno == EPIPE && sig && !rd) BAD("send() on a closed connection raises SIGPIPE"); return -1; }
    if (faults && rd && rnd() % 9 == 0) { last_closed = true; return 0; }
    size_t k = rnd() % 2 ? n : 1 + rnd() % n; if (!rd && rnd() % 8 == 0) k = 0;
    if (rd) for (size_t i = 0; i < k; ++i) const_cast<std::byte*>(b)[i] = wire[moved + i]; else for (size_t i = 0; i < k; ++i) wire[moved + i] = b[i];
    moved += k; return k;
}
extern "C" ssize_t recv(int, void* p, size_t n, int fl) { return move(p, n, fl, true); }
extern "C" ssize_t send(int, const void* p, size_t n, int fl) { return move(p, n, fl, false); }
extern "C" int connect(int, const sockaddr*, socklen_t) { ++connects; errno = connect_errno; return connect_ret; }
extern "C" int getsockopt(int, int, int name, void* p, socklen_t*) noexcept { if (name == SO_ERROR) *static_cast<int*>(p) = so_err; return 0; }
auto coro::scheduler::poll(fd_t, poll_op op, std::chrono::milliseconds t, std::optional<poll_stop_token>) -> task<poll_status>
{
    ++polls; if (in_connect) co_return connect_poll;
    if ((op == poll_op::read) != reading) BAD("polls for the wrong direction");
    if (asked_ms > 0 ? t.count() <= 0 || t.count() > asked_ms : t.count() > 0) BAD("polls for %ld ms of %ld", static_cast<long>(t.count()), asked_ms);
    last_errno = 0; last_closed = last_poll_bad = false; any_call = true;
    const poll_status b[] = {poll_status::timeout, poll_status::error, poll_status::closed, poll_status::cancelled};
    if (faults && rnd() % 4 == 0) { last_poll_bad = true; co_return bad_status = b[rnd() % 4]; }
    co_return reading ? poll_status::read : poll_status::write;
}
coro::scheduler::~scheduler() {}
static std::atomic<long> clk{1}; static bool passing = false;
std::chrono::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept { return time_point{std::chrono::milliseconds{passing && rnd() % 3 == 0 ? clk += 60000 : clk.load()}}; }
template<typename B, typename E, typename T> static void transfer(net::tcp::client& c, bool whole)
{
    total = rnd() % 4 == 0 ? 0 : 1 + rnd() % 40; std::vector<E> mem(total + (total == 0)); base = reinterpret_cast<std::byte*>(mem.data()); moved = 0; polls = 0; any_call = false; faults = rnd() % 4 != 0; asked_ms = rnd() % 2 ? 0 : 100000; passing = rnd() % 2; wire.assign(total + 1, std::byte{0});
    for (size_t i = 0; i < total; ++i) { wire[i] = std::byte(reading ? rnd() : 0); base[i] = std::byte(reading ? 0xEE : rnd()); }
    std::span<E> sp{mem.data(), total}; std::chrono::milliseconds ms{asked_ms}; io_status st; const std::byte* p; size_t n;
    if (reading) { auto [s, r] = whole ? sync_wait(c.read_exact(sp, ms)) : sync_wait(c.read_some(sp, ms)); st = s; p = reinterpret_cast<const std::byte*>(r.data()); n = r.size(); }
    else { std::span<const E> cs{sp}; auto [s, r] = whole ? sync_wait(c.write_all(cs, ms)) : sync_wait(c.write_some(cs, ms)); st = s; p = reinterpret_cast<const std::byte*>(r.data()); n = r.size(); }
    const char* f = reading ? (whole ? "read_exact" : "read_some") : (whole ? "write_all" : "write_some");
    if (total == 0) { if (!st.is_ok() || n || any_call) BAD("%s of an empty buffer", f); return; }
    size_t num = reading ? moved : total - moved; const std::byte* at = base + (reading ? 0 : moved);
    if (n != num || (num && p != at)) BAD("%s reports %zu bytes at +%td as %s, %zu at +%td are", f, n, p - base, reading ? "received" : "not sent", num, at - base);
    for (size_t i = 0; i < moved; ++i) if (base[i] != wire[i]) BAD("%s: byte %zu differs", f, i);
    if (whole && st.is_ok() && moved != total) BAD("%s reports ok", f);
    if (whole && st.is_timeout() && asked_ms && passing && num != (reading ? total : 0) && !last_poll_bad) return;
    io_status want{kind::ok}; if (last_closed) want = io_status{kind::closed}; else if (last_poll_bad) want = net::make_io_status_from_poll_status(bad_status); else if (last_errno) want = net::make_io_status_from_native(last_errno);
    if (st.type != want.type || st.native_code != want.native_code) BAD("%s reports status %d/%d instead of %d/%d", f, (int)st.type, st.native_code, (int)want.type, want.native_code);
    if (!whole && !polls && st.try_again()) BAD("%s does not wait for readiness", f);
}
int main()
{
    watchdog(20); alignas(64) static char mem[8192]; std::unique_ptr<scheduler> s{reinterpret_cast<scheduler*>(mem)};
    for (int r = 0; r < 20000; ++r)
    {
        scenario("transfers"); net::tcp::client c{s, net::socket_address{"127.0.0.1", 80}};
        for (int k = 0; k < 6; ++k) { reading = rnd() % 2; transfer<void, char, int>(c, rnd() % 2); }
        if (r % 8 == 0)
        {
            scenario("connect"); const int e[] = {EAGAIN, EINPROGRESS, ECONNREFUSED, ENETUNREACH}; const poll_status ps[] = {poll_status::write, poll_status::write, poll_status::timeout, poll_status::error, poll_status::closed, poll_status::cancelled};
            connect_ret = rnd() % 3 ? -1 : 0; connect_errno = e[rnd() % 4]; so_err = rnd() % 2 ? 0 : ECONNREFUSED; connect_poll = ps[rnd() % 6]; in_connect = true; connects = 0;
            auto st = sync_wait(c.connect()); bool bg = connect_ret && (connect_errno == EAGAIN || connect_errno == EINPROGRESS);
            auto want = !connect_ret || (bg && connect_poll == poll_status::write && !so_err) ? net::connect_status::connected : bg && connect_poll == poll_status::timeout ? net::connect_status::timeout : net::connect_status::error;
            CHECK(st == want, "connect() reports %d instead of %d: ::connect %d errno %d, poll status %d, SO_ERROR %d", (int)st, (int)want, connect_ret, connect_errno, (int)connect_poll, so_err);
            CHECK(sync_wait(c.connect()) == st && connects == 1, "connect() again is not remembered"); in_connect = false;
        }
    }
    s.release(); std::printf("no failing input found\n"); std::fflush(stdout); _exit(0);
}
