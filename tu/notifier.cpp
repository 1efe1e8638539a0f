#include "src/detail/io_notifier_epoll.cpp"
#include "vc.hpp"
using namespace coro::detail; using coro::poll_op; using coro::poll_status;
VC_SIZE(notifier, io_notifier_epoll) VC_OFF(notifier_fd, io_notifier_epoll, m_fd)
VC_SIZE(pi, poll_info) VC_OFF(pi_fd, poll_info, m_fd) VC_OFF(pi_op, poll_info, m_op) VC_OFF(pi_cancel, poll_info, m_cancel_trigger)
VC_SIZE(timer, timer_handle) VC_OFF(timer_fd, timer_handle, m_fd)
VC_SIZE(cancel, std::optional<coro::poll_stop_token>)
extern "C" void vc_cancel_none(void* p) { ::new (p) std::optional<coro::poll_stop_token>(); }
extern "C" void vc_cancel_fd(void* p, int fd) { ::new (p) std::optional<coro::poll_stop_token>(coro::poll_stop_token{fd}); }
#define VC_VAL(n, e) extern "C" const unsigned long VC_off_##n = static_cast<unsigned long>(e);
#define P(x) VC_VAL(st_##x, poll_status::x)
P(read) P(write) P(timeout) P(error) P(closed) P(cancelled)
#define O(x) VC_VAL(op_##x, poll_op::x)
O(read) O(write) O(read_write)
using ready = std::vector<std::pair<poll_info*, poll_status>>;
VC_SIZE(ready, ready)
extern "C" bool vc_watch(io_notifier_epoll& n, int fd, poll_op op, void* d, bool keep, bool cancel) { return n.watch(fd, op, d, keep, cancel); }
extern "C" bool vc_watch_pi(io_notifier_epoll& n, poll_info& p) { return n.watch(p); }
extern "C" bool vc_unwatch(io_notifier_epoll& n, int fd, poll_op op) { return n.unwatch(fd, op); }
extern "C" bool vc_unwatch_pi(io_notifier_epoll& n, poll_info& p) { return n.unwatch(p); }
extern "C" bool vc_watch_timer(io_notifier_epoll& n, const timer_handle& t, long ns) { return n.watch_timer(t, std::chrono::nanoseconds{ns}); }
extern "C" bool vc_unwatch_timer(io_notifier_epoll& n, const timer_handle& t) { return n.unwatch_timer(t); }
extern "C" void vc_next(io_notifier_epoll& n, ready& v, long ms) { n.next_events(v, std::chrono::milliseconds{ms}); }
extern "C" void vc_timer_ctor(void* p, const void* o, io_notifier_epoll& n) { ::new (p) timer_handle(o, n); }
