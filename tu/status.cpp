#include "src/net/io_status.cpp"
#include "src/poll.cpp"
#include "src/net/connect.cpp"
#include "src/net/ip_address.cpp"
#include "src/net/tls/recv_status.cpp"
#include "src/net/tls/send_status.cpp"
#include "src/net/tls/connection_status.cpp"
#include "vc.hpp"
using kind = coro::net::io_status::kind;
#define VC_VAL(n, e) extern "C" const unsigned long VC_off_##n = static_cast<unsigned long>(e);
#define K(x) VC_VAL(kind_##x, kind::x)
K(ok) K(closed) K(connection_reset) K(connection_refused) K(timeout) K(would_block_or_try_again) K(polling_error) K(cancelled) K(udp_not_bound) K(message_too_big) K(native) K(unknown)
#define O(x) VC_VAL(poll_op_##x, coro::poll_op::x)
O(read) O(write) O(read_write)
#define P(x) VC_VAL(poll_status_##x, coro::poll_status::x)
P(read) P(write) P(timeout) P(error) P(closed) P(cancelled)
#define C(x) VC_VAL(connect_status_##x, coro::net::connect_status::x)
C(connected) C(invalid_ip_address) C(timeout) C(error)
#define D(x) VC_VAL(domain_##x, coro::net::domain_t::x)
D(ipv4) D(ipv6)
#define T(x) VC_VAL(tls_recv_##x, coro::net::tls::recv_status::x) VC_VAL(tls_send_##x, coro::net::tls::send_status::x)
T(ok) T(buffer_is_empty) T(timeout) T(cancelled) T(closed) T(error) T(want_read) T(want_write) T(want_connect) T(want_accept) T(want_x509_lookup) T(error_syscall)
#define N(x) VC_VAL(tls_conn_##x, coro::net::tls::connection_status::x)
N(connected) N(not_connected) N(context_required) N(resource_allocation_failed) N(set_fd_failure) N(handshake_failed) N(timeout) N(poll_error) N(unexpected_close) N(invalid_ip_address) N(error)
VC_VAL(ECONNREFUSED, ECONNREFUSED) VC_VAL(ECONNRESET, ECONNRESET) VC_VAL(EAGAIN, EAGAIN) VC_VAL(EWOULDBLOCK, EWOULDBLOCK) VC_VAL(EMSGSIZE, EMSGSIZE) VC_VAL(EOF, EOF)
VC_VAL(size_io_status, sizeof(coro::net::io_status))
VC_OFF(io_type, coro::net::io_status, type)
VC_OFF(io_native, coro::net::io_status, native_code)
using coro::net::io_status;
extern "C" void vc_native(int c, io_status* o) { *o = coro::net::make_io_status_from_native(c); }
extern "C" void vc_poll(coro::poll_status c, io_status* o) { *o = coro::net::make_io_status_from_poll_status(c); }
extern "C" void vc_kind_text(kind k, std::string_view* o) { *o = to_string(k); }
extern "C" const void* vc_poll_op_text(coro::poll_op o) { return &to_string(o); }
extern "C" const void* vc_poll_status_text(coro::poll_status o) { return &to_string(o); }
extern "C" const void* vc_connect_status_text(coro::net::connect_status o) { return &to_string(o); }
extern "C" const void* vc_domain_text(coro::net::domain_t o) { return &to_string(o); }
extern "C" const void* vc_tls_recv_text(coro::net::tls::recv_status o) { return &to_string(o); }
extern "C" const void* vc_tls_send_text(coro::net::tls::send_status o) { return &to_string(o); }
extern "C" const void* vc_tls_conn_text(coro::net::tls::connection_status o) { return &to_string(o); }
extern "C" void vc_message(const io_status* s, std::string* o) { ::new (o) std::string(s->message()); }
extern "C" bool vc_is_ok(const io_status* s) { return s->is_ok(); }
extern "C" bool vc_bool(const io_status* s) { return static_cast<bool>(*s); }
extern "C" bool vc_is_timeout(const io_status* s) { return s->is_timeout(); }
extern "C" bool vc_is_closed(const io_status* s) { return s->is_closed(); }
extern "C" bool vc_would_block(const io_status* s) { return s->would_block(); }
extern "C" bool vc_try_again(const io_status* s) { return s->try_again(); }
extern "C" bool vc_is_native(const io_status* s) { return s->is_native(); }
extern "C" bool vc_readable(coro::poll_op o) { return coro::poll_op_readable(o); }
extern "C" bool vc_writeable(coro::poll_op o) { return coro::poll_op_writeable(o); }
// the assumed contract of std::system_category().message(code)
extern "C" void vc_category_message(std::string*, const void*, int);
extern "C" void* vc_use_category = (void*)&vc_category_message;
