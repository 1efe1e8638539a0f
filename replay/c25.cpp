// RUN: -O1 -fsanitize=address,undefined -DLIBCORO_FEATURE_TLS | src/net/io_status.cpp src/poll.cpp src/net/connect.cpp src/net/ip_address.cpp src/net/tls/recv_status.cpp src/net/tls/send_status.cpp src/net/tls/connection_status.cpp src/detail/pipe.cpp | 60
#include "rp.hpp"
#include <climits>
#include <coro/net/connect.hpp>
#include <coro/net/io_status.hpp>
#include <coro/net/ip_address.hpp>
#include <coro/net/tls/connection_status.hpp>
#include <coro/net/tls/recv_status.hpp>
#include <coro/net/tls/send_status.hpp>
#include <coro/poll.hpp>
#include <string>
#include <system_error>
using namespace rp; using namespace coro; using namespace coro::net; using kind = io_status::kind;
#define T(e, n) CHECK(std::string(to_string(e::n)) == #n, #e "::" #n " has the text '%s'", std::string(to_string(e::n)).c_str());
int main()
{
    watchdog(20); scenario("native codes");
    auto one = [](long c) {
        auto s = make_io_status_from_native((int)c); kind w = c == 0 ? kind::ok : c == EOF ? kind::closed : c == ECONNREFUSED ? kind::connection_refused : c == ECONNRESET ? kind::connection_reset : c == EAGAIN || c == EWOULDBLOCK ? kind::would_block_or_try_again : c == EMSGSIZE ? kind::message_too_big : kind::native;
        CHECK(s.type == w && s.native_code == (int)c, "make_io_status_from_native(%ld): kind %d code %d", c, (int)s.type, s.native_code);
        CHECK(s.is_ok() == (w == kind::ok) && bool(s) == s.is_ok() && s.is_closed() == (w == kind::closed) && s.is_timeout() == (w == kind::timeout) && s.would_block() == (w == kind::would_block_or_try_again) && s.try_again() == s.would_block() && s.is_native() == (w == kind::native), "queries of the status of %ld", c);
    };
    for (long c = -200000; c < 200000; ++c) one(c);
    for (long c : {(long)INT_MIN, (long)INT_MAX, (long)INT_MIN + 1, (long)INT_MAX - 1}) one(c);
    for (int b = 0; b < 31; ++b) { one(1l << b); one(-(1l << b)); }
    for (int c = -300; c < 300; ++c) { io_status s{kind::native, c}; std::string w = c == 0 ? "Success" : std::system_category().message(c); CHECK(s.message() == w, "message of native code %d is '%s'", c, s.message().c_str()); }
    scenario("poll status");
    struct { poll_status p; kind k; } pt[] = {{poll_status::read, kind::ok}, {poll_status::write, kind::ok}, {poll_status::timeout, kind::timeout}, {poll_status::error, kind::polling_error}, {poll_status::closed, kind::closed}, {poll_status::cancelled, kind::cancelled}};
    for (auto& x : pt) CHECK(make_io_status_from_poll_status(x.p).type == x.k, "make_io_status_from_poll_status(%d) is %d", (int)x.p, (int)make_io_status_from_poll_status(x.p).type);
    scenario("texts");
    const char* kt[] = {"Success", "Connection closed by peer", "Connection reset by peer", "Connection refused by target host", "Operation timed out", "Operation would block or try again", "Polling error", "Operation cancelled", "Udp socket is not bound", "Message is too big", "Native error code", "unknown"};
    for (int k = 0; k < 12; ++k) { CHECK(to_string((kind)k) == kt[k], "kind %d has the text '%s'", k, std::string(to_string((kind)k)).c_str()); if ((kind)k != kind::native) CHECK((io_status{(kind)k, 5}.message() == kt[k]), "message of kind %d", k); }
    T(poll_op, read) T(poll_op, write) T(poll_op, read_write)
    T(poll_status, read) T(poll_status, write) T(poll_status, timeout) T(poll_status, error) T(poll_status, closed) T(poll_status, cancelled)
    T(connect_status, connected) T(connect_status, invalid_ip_address) T(connect_status, timeout) T(connect_status, error)
    T(domain_t, ipv4) T(domain_t, ipv6)
#define B(n) T(tls::recv_status, n) T(tls::send_status, n)
    B(ok) B(buffer_is_empty) B(timeout) B(cancelled) B(closed) B(error) B(want_read) B(want_write) B(want_connect) B(want_accept) B(want_x509_lookup) B(error_syscall)
#define N(n) T(tls::connection_status, n)
    N(connected) N(not_connected) N(context_required) N(resource_allocation_failed) N(set_fd_failure) N(handshake_failed) N(timeout) N(poll_error) N(unexpected_close) N(invalid_ip_address) N(error)
    for (auto o : {poll_op::read, poll_op::write, poll_op::read_write}) CHECK(poll_op_readable(o) == (o != poll_op::write) && poll_op_writeable(o) == (o != poll_op::read), "direction of poll_op %d", (int)o);
    std::printf("no failing input found\n"); std::fflush(stdout); _exit(0);
}
