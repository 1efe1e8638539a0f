#include "src/net/tls/client.cpp"
#include "vc.hpp"
#include <new>
using namespace coro; using tc = net::tls::client; using net::tls::recv_status; using net::tls::send_status; using net::tls::connection_status;
VC_SIZE(client, tc) VC_OFF(c_scheduler, tc, m_scheduler) VC_OFF(c_endpoint, tc, m_endpoint) VC_OFF(c_status, tc, m_connect_status) VC_OFF(c_ctx, tc, m_tls_ctx) VC_OFF(c_info, tc, m_tls_info) VC_OFF(i_ptr, tc::tls_info, m_tls_ptr) VC_OFF(i_type, tc::tls_info, m_tls_connection_type)
#define VC_VAL(n, e) extern "C" const unsigned long VC_off_##n = static_cast<unsigned long>(e);
VC_SIZE(ctx, net::tls::context) VC_OFF(x_ctx, net::tls::context, m_ssl_ctx)
VC_SIZE(span, std::span<std::byte>)
#define P(x) VC_VAL(st_##x, poll_status::x)
P(read) P(write) P(timeout) P(error) P(closed) P(cancelled)
VC_VAL(op_read, poll_op::read) VC_VAL(op_write, poll_op::write)
#define R(x) VC_VAL(r_##x, recv_status::x) VC_VAL(s_##x, send_status::x)
R(ok) R(buffer_is_empty) R(timeout) R(cancelled) R(closed) R(error)
#define N(x) VC_VAL(n_##x, connection_status::x)
N(connected) N(context_required) N(resource_allocation_failed) N(set_fd_failure) N(handshake_failed) N(timeout) N(poll_error) N(unexpected_close) N(error)
VC_VAL(e_none, SSL_ERROR_NONE) VC_VAL(e_want_read, SSL_ERROR_WANT_READ) VC_VAL(e_want_write, SSL_ERROR_WANT_WRITE) VC_VAL(e_closed, SSL_ERROR_ZERO_RETURN) VC_VAL(so_error, SO_ERROR) VC_VAL(t_accept, tc::tls_connection_type::accept)
extern "C" int vc_poll(void* sched, int fd, unsigned long op, long ms, bool token);
auto coro::scheduler::poll(fd_t fd, poll_op op, std::chrono::milliseconds t, std::optional<poll_stop_token> c) -> task<poll_status> { co_return static_cast<poll_status>(vc_poll(this, fd, static_cast<unsigned long>(op), t.count(), c.has_value())); }
using rspan = std::span<std::byte>; using wspan = std::span<const std::byte>;
using rtask = task<std::pair<recv_status, rspan>>; using wtask = task<std::pair<send_status, wspan>>; using ctask = task<connection_status>;
struct out { long status; const std::byte* p; std::size_t n; };
template<typename X> static void put(X&& r, out& o) { o = {static_cast<long>(r.first), r.second.data(), r.second.size()}; }
static std::optional<std::chrono::milliseconds> opt(bool has, long ms) { return has ? std::optional{std::chrono::milliseconds{ms}} : std::nullopt; }
extern "C" {
void vc_span(void* p, std::byte* b, std::size_t n) { ::new (p) rspan(b, n); }
void vc_recv(tc& c, rspan& s, bool has, long ms, void* p) { ::new (p) rtask(c.recv(s, opt(has, ms))); }
void vc_send(tc& c, wspan& s, bool has, long ms, void* p) { ::new (p) wtask(c.send(s, opt(has, ms))); }
void vc_connect(tc& c, long ms, void* p) { ::new (p) ctask(c.connect(std::chrono::milliseconds{ms})); }
void vc_handshake(tc& c, long ms, void* p) { ::new (p) ctask(c.handshake(std::chrono::milliseconds{ms})); }
// connect() is verified against this contract of handshake()
int vc_shake(void* c, long ms);
ctask vc_stub_shake(tc* c, std::chrono::milliseconds t) { co_return static_cast<connection_status>(vc_shake(c, t.count())); }
void* vc_rhandle(rtask& t) { return t.handle().address(); } void* vc_whandle(wtask& t) { return t.handle().address(); } void* vc_chandle(ctask& t) { return t.handle().address(); }
void vc_rresult(rtask& t, out& o) { put(t.promise().result(), o); } void vc_wresult(wtask& t, out& o) { put(t.promise().result(), o); }
int vc_cresult(ctask& t) { return static_cast<int>(t.promise().result()); }
const void* vc_endpoint(const tc& c) { return c.m_endpoint.data().first; } socklen_t vc_endlen(const tc& c) { return c.m_endpoint.data().second; }
int vc_fd(tc& c) { return c.socket().native_handle(); }
#ifdef WIDE
using wide = std::span<std::uint64_t>; using cwide = std::span<const std::uint64_t>;
void vc_wspan(void* p, std::uint64_t* b, std::size_t n) { ::new (p) wide(b, n); }
template<typename X> static void wput(X&& r, out& o) { o = {static_cast<long>(r.first), reinterpret_cast<const std::byte*>(r.second.data()), r.second.size()}; }
#ifdef WIDE_SEND
using xtask = task<std::pair<send_status, cwide>>;
void vc_wide(tc& c, cwide& s, bool has, long ms, void* p) { ::new (p) xtask(c.send(s, opt(has, ms))); }
#else
using xtask = task<std::pair<recv_status, wide>>;
void vc_wide(tc& c, wide& s, bool has, long ms, void* p) { ::new (p) xtask(c.recv(s, opt(has, ms))); }
#endif
void* vc_xhandle(xtask& t) { return t.handle().address(); }
void vc_xresult(xtask& t, out& o) { wput(t.promise().result(), o); }
#endif
}
