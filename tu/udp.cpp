#include "src/net/udp/peer.cpp"
#include "src/net/io_status.cpp"
#include "vc.hpp"
#include <new>
using namespace coro; using peer = net::udp::peer; using net::io_status; using net::socket_address;
VC_SIZE(peer, peer) VC_OFF(p_scheduler, peer, m_scheduler) VC_OFF(p_bound, peer, m_bound) VC_OFF(p_read, peer, m_is_read_ready) VC_OFF(p_write, peer, m_is_write_ready)
VC_SIZE(addr, socket_address) VC_SIZE(span, std::span<std::byte>)
#define VC_VAL(n, e) extern "C" const unsigned long VC_off_##n = static_cast<unsigned long>(e);
VC_VAL(a_storage, offsetof(socket_address, m_storage)) VC_VAL(a_len, offsetof(socket_address, m_len)) VC_VAL(storage, sizeof(sockaddr_storage)) VC_VAL(min_storage, sizeof(sockaddr_in6))
#define P(x) VC_VAL(st_##x, poll_status::x)
P(read) P(write) P(timeout) P(error) P(closed) P(cancelled)
VC_VAL(op_read, poll_op::read) VC_VAL(op_write, poll_op::write)
#define K(x) VC_VAL(k_##x, io_status::kind::x)
K(ok) K(closed) K(timeout) K(would_block_or_try_again) K(udp_not_bound)
VC_VAL(ipv4, net::domain_t::ipv4) VC_VAL(ipv6, net::domain_t::ipv6) VC_VAL(udp, net::socket::type_t::udp) VC_VAL(nonblocking, net::socket::blocking_t::no) VC_OFF(so_type, net::socket::options, type) VC_OFF(so_block, net::socket::options, blocking)
VC_VAL(harmless, MSG_NOSIGNAL | MSG_DONTWAIT)
extern "C" int vc_poll(void* sched, int fd, unsigned long op, long ms, bool token);
auto coro::scheduler::poll(fd_t fd, poll_op op, std::chrono::milliseconds t, std::optional<poll_stop_token> c) -> task<poll_status> { co_return static_cast<poll_status>(vc_poll(this, fd, static_cast<unsigned long>(op), t.count(), c.has_value())); }
using bytes = std::span<std::byte>; using words = std::span<std::uint64_t>;
using rtask = task<std::tuple<io_status, socket_address, bytes>>; using wtask = task<io_status>;
struct out { int type, code; const std::byte* p; std::size_t n; const socket_address* a; };
static_assert(sizeof(bytes) == sizeof(words));
extern "C" {
void vc_span(void* p, std::byte* b, std::size_t n) { ::new (p) bytes(b, n); }
void vc_wspan(void* p, std::uint64_t* b, std::size_t n) { ::new (p) words(b, n); }
void vc_read(peer& c, bytes& s, long ms, void* p) { ::new (p) rtask(c.read_from(s, std::chrono::milliseconds{ms})); }
void vc_wread(peer& c, words& s, long ms, void* p) { ::new (p) rtask(c.read_from(s, std::chrono::milliseconds{ms})); }
void vc_write(peer& c, socket_address& a, bytes& s, long ms, void* p) { ::new (p) wtask(c.write_to(a, s, std::chrono::milliseconds{ms})); }
void vc_wwrite(peer& c, socket_address& a, words& s, long ms, void* p) { ::new (p) wtask(c.write_to(a, s, std::chrono::milliseconds{ms})); }
void* vc_rhandle(rtask& t) { return t.handle().address(); } void* vc_whandle(wtask& t) { return t.handle().address(); }
void vc_rresult(rtask& t, out& o) { auto& r = t.promise().result(); auto& s = std::get<0>(r); o = {static_cast<int>(s.type), s.native_code, std::get<2>(r).data(), std::get<2>(r).size(), &std::get<1>(r)}; }
void vc_wresult(wtask& t, out& o) { auto& s = t.promise().result(); o = {static_cast<int>(s.type), s.native_code, nullptr, 0, nullptr}; }
void vc_native(int e, out& o) { auto s = net::make_io_status_from_native(e); o.type = static_cast<int>(s.type); o.code = s.native_code; }
void vc_pollst(int e, out& o) { auto s = net::make_io_status_from_poll_status(static_cast<poll_status>(e)); o.type = static_cast<int>(s.type); o.code = s.native_code; }
void vc_new(peer* p, std::unique_ptr<scheduler>& s, int d) { ::new (p) peer(s, static_cast<net::domain_t>(d)); }
void vc_new_bound(peer* p, std::unique_ptr<scheduler>& s, const socket_address& a) { ::new (p) peer(s, a); }
void vc_copy(peer* p, const peer& o) { ::new (p) peer(o); } void vc_move(peer* p, peer& o) { ::new (p) peer(std::move(o)); }
void vc_assign(peer& p, const peer& o) { p = o; } void vc_massign(peer& p, peer& o) { p = std::move(o); }
net::socket* vc_sock(peer& p) { return &p.m_socket; }
int vc_fd(peer& c) { return c.socket().native_handle(); }
}
