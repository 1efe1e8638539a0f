#include "src/net/tcp/client.cpp"
#include "src/net/io_status.cpp"
#include "vc.hpp"
#include <new>
using namespace coro; using tc = net::tcp::client; using net::io_status; using net::connect_status;
VC_SIZE(client, tc) VC_OFF(c_scheduler, tc, m_scheduler) VC_OFF(c_read, tc, m_is_read_ready) VC_OFF(c_write, tc, m_is_write_ready) VC_OFF(c_endpoint, tc, m_endpoint) VC_OFF(c_status, tc, m_connect_status)
static_assert(sizeof(net::socket) >= sizeof(int));
VC_SIZE(span, std::span<std::byte>)
#define VC_VAL(n, e) extern "C" const unsigned long VC_off_##n = static_cast<unsigned long>(e);
#define P(x) VC_VAL(st_##x, poll_status::x)
P(read) P(write) P(timeout) P(error) P(closed) P(cancelled)
VC_VAL(op_read, poll_op::read) VC_VAL(op_write, poll_op::write)
#define K(x) VC_VAL(k_##x, io_status::kind::x)
K(ok) K(closed) K(timeout) K(would_block_or_try_again)
#define N(x) VC_VAL(n_##x, connect_status::x)
N(connected) N(timeout) N(error)
VC_VAL(nosignal, MSG_NOSIGNAL) VC_VAL(harmless, MSG_NOSIGNAL | MSG_DONTWAIT) VC_VAL(so_error, SO_ERROR)
extern "C" int vc_poll(void* sched, int fd, unsigned long op, long ms, bool token);
auto coro::scheduler::poll(fd_t fd, poll_op op, std::chrono::milliseconds t, std::optional<poll_stop_token> c) -> task<poll_status> { co_return static_cast<poll_status>(vc_poll(this, fd, static_cast<unsigned long>(op), t.count(), c.has_value())); }
using rspan = std::span<std::byte>; using wspan = std::span<const std::byte>;
using rtask = task<std::pair<io_status, rspan>>; using wtask = task<std::pair<io_status, wspan>>; using ctask = task<connect_status>;
struct out { int type, code; const std::byte* p; std::size_t n; };
template<typename R> static void put(R&& r, out& o) { o = {static_cast<int>(r.first.type), r.first.native_code, r.second.data(), r.second.size()}; }
// read_some_impl / write_some_impl as seen by their callers: they are verified on their own, read_exact and write_all against their contract
extern "C" void vc_some(void* c, const std::byte* b, std::size_t n, long ms, out* o);
template<typename E> static auto some(tc* c, std::span<E> b, std::chrono::milliseconds t) -> task<std::pair<io_status, std::span<E>>>
{
    out o; vc_some(c, b.data(), b.size(), t.count(), &o);
    co_return std::pair{io_status{static_cast<io_status::kind>(o.type), o.code}, std::span<E>{const_cast<E*>(o.p), o.n}};
}
extern "C" {
rtask vc_stub_read(tc* c, rspan b, std::chrono::milliseconds t) { return some(c, b, t); }
wtask vc_stub_write(tc* c, wspan b, std::chrono::milliseconds t) { return some(c, b, t); }
void vc_span(void* p, std::byte* b, std::size_t n) { ::new (p) rspan(b, n); }
void vc_read_some(tc& c, rspan& s, long ms, void* p) { ::new (p) rtask(c.read_some(s, std::chrono::milliseconds{ms})); }
void vc_read_exact(tc& c, rspan& s, long ms, void* p) { ::new (p) rtask(c.read_exact(s, std::chrono::milliseconds{ms})); }
void vc_write_some(tc& c, wspan& s, long ms, void* p) { ::new (p) wtask(c.write_some(s, std::chrono::milliseconds{ms})); }
void vc_write_all(tc& c, wspan& s, long ms, void* p) { ::new (p) wtask(c.write_all(s, std::chrono::milliseconds{ms})); }
void vc_connect(tc& c, long ms, void* p) { ::new (p) ctask(c.connect(std::chrono::milliseconds{ms})); }
void* vc_rhandle(rtask& t) { return t.handle().address(); } void* vc_whandle(wtask& t) { return t.handle().address(); } void* vc_chandle(ctask& t) { return t.handle().address(); }
void vc_rresult(rtask& t, out& o) { put(t.promise().result(), o); } void vc_wresult(wtask& t, out& o) { put(t.promise().result(), o); }
int vc_cresult(ctask& t) { return static_cast<int>(t.promise().result()); }
void vc_rdtor(rtask& t) { t.~task(); } void vc_wdtor(wtask& t) { t.~task(); }
void vc_native(int e, out& o) { auto s = net::make_io_status_from_native(e); o.type = static_cast<int>(s.type); o.code = s.native_code; }
void vc_pollst(int e, out& o) { auto s = net::make_io_status_from_poll_status(static_cast<poll_status>(e)); o.type = static_cast<int>(s.type); o.code = s.native_code; }
const void* vc_endpoint(const tc& c) { return c.m_endpoint.data().first; } socklen_t vc_endlen(const tc& c) { return c.m_endpoint.data().second; }
int vc_fd(tc& c) { return c.socket().native_handle(); }
void vc_mark_connected(tc& c, int s) { c.m_connect_status = static_cast<connect_status>(s); }
#ifdef WIDE
using wide = std::span<std::uint64_t>; using xtask = task<std::pair<io_status, wide>>;
void vc_wspan(void* p, std::uint64_t* b, std::size_t n) { ::new (p) wide(b, n); }
#ifdef WIDE_EXACT
void vc_wide(tc& c, wide& s, long ms, void* p) { ::new (p) xtask(c.read_exact(s, std::chrono::milliseconds{ms})); }
#else
void vc_wide(tc& c, wide& s, long ms, void* p) { ::new (p) xtask(c.read_some(s, std::chrono::milliseconds{ms})); }
#endif
void* vc_xhandle(xtask& t) { return t.handle().address(); }
void vc_xresult(xtask& t, out& o) { auto r = t.promise().result(); o = {static_cast<int>(r.first.type), r.first.native_code, reinterpret_cast<const std::byte*>(r.second.data()), r.second.size()}; }
#endif
}
