// RUN: -O1 -lssl -lcrypto -fsanitize=address,undefined -fno-sanitize=vptr -fno-access-control -DLIBCORO_FEATURE_NETWORKING -DLIBCORO_FEATURE_TLS | src/net/tls/client.cpp src/net/tls/context.cpp src/net/tls/connection_status.cpp src/net/socket.cpp src/net/ip_address.cpp src/poll.cpp src/thread_pool.cpp src/event.cpp src/detail/io_notifier_epoll.cpp src/detail/timer_handle.cpp src/detail/pipe.cpp src/detail/task_self_deleting.cpp src/sync_wait.cpp | 60
// A stand-in tls library and scheduler::poll play sequences of want-read, want-write, errors and successes.
#include "rp.hpp"
#include <cstring>
#include <coro/net/tls/client.hpp>
#include <coro/sync_wait.hpp>
#include <sys/socket.h>
using namespace rp; using namespace coro; using net::tls::recv_status; using net::tls::send_status; using net::tls::connection_status;
static char ssl_obj[64]; static SSL* const ssl = reinterpret_cast<SSL*>(ssl_obj);
enum mode { idle, reading, writing, shaking }; static mode m; static char why[200]; static std::byte* base; static size_t total, moved; static int dirty, want, lasterr, tries, polls, role, fd_set_, finished, connects, fresh_poll; static bool buffered, any, faults; static poll_status bad; static bool last_bad; static long asked; static bool server;
#define BAD(...) do { std::snprintf(why, sizeof why, __VA_ARGS__); FAIL("%s (%s)", why, m == reading ? "recv" : m == writing ? "send" : "handshake"); } while (0)
static int attempt(bool move)
{
    any = true; ++tries; last_bad = false; if (dirty) BAD("the error queue still holds an error of something else"); dirty = 1; fresh_poll = 0;
    if (faults && rnd() % 2) { const int e[] = {SSL_ERROR_WANT_READ, SSL_ERROR_WANT_WRITE, SSL_ERROR_WANT_READ, SSL_ERROR_WANT_WRITE, SSL_ERROR_SSL, SSL_ERROR_ZERO_RETURN, SSL_ERROR_SYSCALL}; lasterr = e[rnd() % 7]; if (lasterr == SSL_ERROR_WANT_READ) want = 1, buffered = false; if (lasterr == SSL_ERROR_WANT_WRITE) want = 2; return rnd() % 2 ? 0 : -1; }
    (void)move; lasterr = 0; return 1;
}
static int transfer(const void* p, size_t n, size_t* out)
{
    auto b = static_cast<const std::byte*>(p); if (b != base || n > total || !n) BAD("moves %zu bytes at +%td of %zu", n, b - base, total); if (m == writing && n != total) BAD("the write is repeated with %zu of %zu bytes", n, total);
    int r = attempt(true); if (r == 1) { size_t k = rnd() % 2 ? n : 1 + rnd() % n; if (m == reading) for (size_t i = 0; i < k; ++i) base[i] = std::byte{0x5a}; moved = *out = k; } return r;
}
extern "C" {
SSL* SSL_new(SSL_CTX*) { if (faults && rnd() % 8 == 0) { finished = -1; return nullptr; } return ssl; } void SSL_free(SSL*) {} int SSL_set_fd(SSL*, int) { if (faults && rnd() % 8 == 0) { finished = -2; return 0; } fd_set_ = 1; return 1; }
void SSL_set_connect_state(SSL*) { role = 1; } void SSL_set_accept_state(SSL*) { role = 2; }
static int shake() { if (!fd_set_) BAD("no socket"); if (role != (server ? 2 : 1)) BAD("role %d", role); int r = attempt(false); if (r == 1) finished = 1; return r; }
int SSL_connect(SSL*) { if (!role) role = 1; return shake(); } int SSL_accept(SSL*) { if (!role) role = 2; return shake(); } int SSL_do_handshake(SSL*) { return shake(); }
int SSL_read_ex(SSL*, void* p, size_t n, size_t* out) { if (m != reading) BAD("reads"); return transfer(p, n, out); } int SSL_write_ex(SSL*, const void* p, size_t n, size_t* out) { if (m != writing) BAD("writes"); return transfer(p, n, out); }
int SSL_get_error(const SSL*, int r) { if (r > 0) BAD("asks for the error of a success"); return lasterr; } void ERR_clear_error() { dirty = 0; } int SSL_pending(const SSL*) { return buffered ? 5 : 0; } int SSL_has_pending(const SSL*) { return buffered; } int SSL_shutdown(SSL*) { return 1; }
}
static int connect_ret, connect_errno, so_err; static poll_status connect_poll; static bool in_connect;
extern "C" int connect(int, const sockaddr*, socklen_t) { ++connects; errno = connect_errno; return connect_ret; }
extern "C" int getsockopt(int, int, int name, void* p, socklen_t*) noexcept { if (name == SO_ERROR) *static_cast<int*>(p) = so_err; return 0; }
auto coro::scheduler::poll(fd_t, poll_op op, std::chrono::milliseconds t, std::optional<poll_stop_token>) -> task<poll_status>
{
    ++polls; dirty = 1; if (in_connect) { in_connect = false; m = shaking; co_return connect_poll; }
    if (asked > 0 ? t.count() <= 0 || t.count() > asked : t.count() > 0) BAD("polls for %ld ms of %ld", static_cast<long>(t.count()), asked);
    if (op != (want == 1 ? poll_op::read : poll_op::write)) BAD("the tls library wants to %s, polls for the other direction", want == 1 ? "read" : "write");
    if (m == reading && want == 1 && buffered) BAD("waits for the socket although received data is buffered"); if (fresh_poll++) BAD("polls again although the socket was ready");
    const poll_status b[] = {poll_status::timeout, poll_status::error, poll_status::closed, poll_status::cancelled}; any = true;
    if (faults && rnd() % 4 == 0) { last_bad = true; co_return bad = b[rnd() % 4]; }
    co_return want == 1 ? poll_status::read : poll_status::write;
}
coro::scheduler::~scheduler() {}
static std::atomic<long> clk{1}; static bool passing = false;
std::chrono::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept { return time_point{std::chrono::milliseconds{passing && rnd() % 3 == 0 ? clk += 60000 : clk.load()}}; }
static void move(net::tls::client& c)
{
    m = rnd() % 2 ? reading : writing; total = rnd() % 6 == 0 ? 0 : 1 + rnd() % 40; std::vector<char> mem(total + (total == 0), 1); base = reinterpret_cast<std::byte*>(mem.data()); moved = 0; any = false; faults = rnd() % 4 != 0; passing = rnd() % 2; fresh_poll = 0; tries = 0; last_bad = false; lasterr = -1; buffered = rnd() % 2; want = m == reading ? 1 : 2; dirty = 1; asked = 0;
    std::optional<std::chrono::milliseconds> t; if (rnd() % 2) { t = std::chrono::milliseconds{100000}; asked = 100000; } long s; const std::byte* p; size_t n; std::span<char> sp{mem.data(), total}; std::span<const char> cs{mem.data(), total};
    if (m == reading) { auto [a, b] = sync_wait(c.recv(sp, t)); s = (long)a; p = reinterpret_cast<const std::byte*>(b.data()); n = b.size(); } else { auto [a, b] = sync_wait(c.send(cs, t)); s = (long)a; p = reinterpret_cast<const std::byte*>(b.data()); n = b.size(); }
    if (!total) { if (s != (long)recv_status::buffer_is_empty || n || any) BAD("an empty buffer: status %ld", s); return; }
    size_t num = m == reading ? moved : total - moved; if (n != num || (n && p != base + (m == reading ? 0 : moved))) BAD("reports %zu bytes at +%td, %zu are %s (status %ld)", n, n ? p - base : 0, num, m == reading ? "received" : "not sent", s);
    if (moved ? s != (long)recv_status::ok : s == (long)recv_status::ok) BAD("reports status %ld after %zu bytes were moved", s, moved); if (moved) return;
    long w = last_bad ? bad == poll_status::timeout ? (long)recv_status::timeout : bad == poll_status::error ? (long)recv_status::error : bad == poll_status::closed ? (long)recv_status::closed : (long)recv_status::cancelled : lasterr == SSL_ERROR_WANT_READ || lasterr == SSL_ERROR_WANT_WRITE ? (long)recv_status::timeout : lasterr;
    if (s != w) BAD("reports status %ld instead of %ld", s, w); if (!last_bad && (lasterr == SSL_ERROR_WANT_READ || lasterr == SSL_ERROR_WANT_WRITE) && (!t || !passing)) BAD("times out although no time passed");
}
int main()
{
    watchdog(20); alignas(64) static char mem[8192]; std::unique_ptr<scheduler> s{reinterpret_cast<scheduler*>(mem)}; auto ctx = std::make_shared<net::tls::context>(net::tls::verify_peer_t::no);
    for (int r = 0; r < 20000; ++r)
    {
        scenario("connect"); net::tls::client c{s, ctx, net::socket_address{"127.0.0.1", 80}}; server = rnd() % 4 == 0; if (server) c.m_tls_info.m_tls_connection_type = net::tls::client::tls_connection_type::accept;
        const int e[] = {EAGAIN, EINPROGRESS, ECONNREFUSED, ENETUNREACH}; const poll_status ps[] = {poll_status::write, poll_status::write, poll_status::timeout, poll_status::error, poll_status::closed, poll_status::cancelled}; asked = 100000; passing = false; role = fd_set_ = finished = connects = fresh_poll = tries = 0; last_bad = false; lasterr = -1; faults = rnd() % 2; m = shaking; dirty = 1;
        connect_ret = rnd() % 2 ? -1 : 0; connect_errno = e[rnd() % 4]; so_err = rnd() % 3 ? 0 : ECONNREFUSED; connect_poll = ps[rnd() % 6]; in_connect = connect_ret && (connect_errno == EAGAIN || connect_errno == EINPROGRESS); bool bg = in_connect;
        auto st = sync_wait(c.connect(std::chrono::milliseconds{asked})); bool up = !connect_ret || (bg && connect_poll == poll_status::write && !so_err);
        auto w = !up ? bg && connect_poll == poll_status::timeout ? connection_status::timeout : connection_status::error : finished == 1 ? connection_status::connected : finished == -1 ? connection_status::resource_allocation_failed : finished == -2 ? connection_status::set_fd_failure : last_bad ? bad == poll_status::timeout ? connection_status::timeout : bad == poll_status::error ? connection_status::poll_error : connection_status::unexpected_close : connection_status::handshake_failed;
        CHECK(st == w, "connect() reports %d instead of %d (connected %d, handshake finished %d, attempts %d)", (int)st, (int)w, up, finished, tries); CHECK(up || !tries, "handshake without a connection");
        CHECK(sync_wait(c.connect()) == st && connects == 1, "connect() again is not remembered"); in_connect = false;
        if (finished == 1) for (int k = 0; k < 8; ++k) { scenario("transfers"); move(c); }
    }
    s.release(); std::printf("no failing input found\n"); std::fflush(stdout); _exit(0);
}
