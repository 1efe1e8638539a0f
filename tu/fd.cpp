#include "src/detail/pipe.cpp"
#include "src/net/socket.cpp"
#include "src/detail/timer_handle.cpp"
#include "src/detail/io_notifier_epoll.cpp"
#include "vc.hpp"
using sock = coro::net::socket; using coro::detail::pipe_t; using coro::poll_stop_source; using coro::detail::timer_handle; using coro::detail::io_notifier_epoll;
VC_SIZE(socket, sock) VC_SIZE(pipe, pipe_t) VC_SIZE(stop, poll_stop_source) VC_SIZE(timer, timer_handle) VC_SIZE(notifier, io_notifier_epoll)
VC_OFF(socket_fd, sock, m_fd) VC_OFF(pipe_fds, pipe_t, m_fds) VC_OFF(stop_pipe, poll_stop_source, m_pipe) VC_OFF(timer_fd, timer_handle, m_fd) VC_OFF(notifier_fd, io_notifier_epoll, m_fd)
VC_SIZE(sa, coro::net::socket_address) VC_OFF(sa_storage, coro::net::socket_address, m_storage) VC_OFF(sa_len, coro::net::socket_address, m_len)
#define LIFE(n, T) \
    extern "C" void vc_##n##_move(T& o, void* p) { ::new (p) T(std::move(o)); } \
    extern "C" void vc_##n##_massign(T& d, T& o) { d = std::move(o); } \
    extern "C" void vc_##n##_dtor(T& d) { d.~T(); }
#define COPY(n, T) \
    extern "C" void vc_##n##_copy(const T& o, void* p) { ::new (p) T(o); } \
    extern "C" void vc_##n##_cassign(T& d, const T& o) { d = o; }
LIFE(socket, sock) COPY(socket, sock) LIFE(pipe, pipe_t) COPY(pipe, pipe_t) LIFE(stop, poll_stop_source)
extern "C" void vc_socket_default(void* p) { ::new (p) sock(); }
extern "C" void vc_socket_fd(int fd, void* p) { ::new (p) sock(fd); }
extern "C" void vc_socket_close(sock& s) { s.close(); }
extern "C" bool vc_socket_blocking(sock& s, sock::blocking_t b) { return s.blocking(b); }
extern "C" bool vc_socket_shutdown(sock& s, coro::poll_op h) { return s.shutdown(h); }
extern "C" int vc_socket_handle(const sock& s) { return s.native_handle(); }
extern "C" bool vc_socket_ok(const sock& s) { return s.is_ok(); }
extern "C" bool vc_socket_bool(const sock& s) { return static_cast<bool>(s); }
extern "C" void vc_make(sock::type_t t, sock::blocking_t b, coro::net::domain_t d, void* p) { ::new (p) sock(coro::net::make_socket(sock::options{t, b}, d)); }
extern "C" void vc_make_accept(sock::type_t t, sock::blocking_t b, const coro::net::socket_address& e, int32_t backlog, void* p) { ::new (p) sock(coro::net::make_accept_socket(sock::options{t, b}, e, backlog)); }
extern "C" void vc_pipe_ctor(void* p) { ::new (p) pipe_t(); }
extern "C" void vc_pipe_close(pipe_t& s) { s.close(); }
extern "C" long vc_pipe_write(pipe_t& s, const void* p, std::size_t n) { return s.write(p, n); }
extern "C" long vc_pipe_read(pipe_t& s, void* p, std::size_t n) { return s.read(p, n); }
extern "C" int vc_pipe_rfd(const pipe_t& s) { return s.read_fd(); }
extern "C" int vc_pipe_wfd(const pipe_t& s) { return s.write_fd(); }
extern "C" void vc_stop_ctor(void* p) { ::new (p) poll_stop_source(); }
extern "C" int vc_stop_token(const poll_stop_source& s) { return s.get_token().native_handle(); }
extern "C" void vc_stop_signal(poll_stop_source& s) { s.signal_stop(); }
extern "C" void vc_timer_ctor(void* p, const void* t, coro::io_notifier& n) { ::new (p) timer_handle(t, n); }
extern "C" void vc_timer_dtor(timer_handle& t) { t.~timer_handle(); }
extern "C" void vc_notifier_ctor(void* p) { ::new (p) io_notifier_epoll(); }
extern "C" void vc_notifier_dtor(io_notifier_epoll& t) { t.~io_notifier_epoll(); }
