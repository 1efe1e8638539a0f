#include "src/event.cpp"
#include "src/detail/task_self_deleting.cpp"
#include "src/thread_pool.cpp"
#include "tracked.hpp"
#include "vc.hpp"
#include <new>
#include <span>
using namespace coro;
using pool = thread_pool; using op = thread_pool::schedule_operation; using detail::task_self_deleting;
VC_SIZE(pool, pool) VC_OFF(p_threads, pool, m_threads) VC_OFF(p_mutex, pool, m_wait_mutex) VC_OFF(p_cv, pool, m_wait_cv) VC_OFF(p_queue, pool, m_queue) VC_OFF(p_size, pool, m_size) VC_OFF(p_shut, pool, m_shutdown_requested) VC_OFF(p_opts, pool, m_opts)
VC_SIZE(op, op) VC_OFF(op_pool, op, m_thread_pool) VC_SIZE(task, task<void>) VC_SIZE(thread, std::thread) VC_OFF(aw_event, event::awaiter, m_event)
extern "C" { void vc_enter(std::uint64_t); bool vc_ready(std::uint64_t); void vc_point(std::uint64_t, void*); void vc_run(std::uint64_t); void vc_started(std::uint64_t); void vc_stopped(std::uint64_t); }
struct point { std::uint64_t n; bool await_ready() { return vc_ready(n); } void await_suspend(std::coroutine_handle<> h) { vc_point(n, h.address()); } void await_resume() { vc_run(n); } };
static task<void> user(std::uint64_t n, tv) { vc_enter(n); tv local(n); co_await point{n}; tv other(n); (void)other; co_return; }
static task<std::uint64_t> user_val(std::uint64_t n, tv) { vc_enter(n); tv local(n); co_await point{n}; co_return 17; }
static task<void> on_pool(pool& p) { co_await p.schedule(); vc_run(0); co_return; }
static task<void> yields(pool& p) { co_await p.yield(); vc_run(0); co_return; }
static task<void> outer(pool& p) { co_await p.schedule(user(1, tv(1))); vc_run(9); co_return; }
static task<void> outer_val(pool& p) { if (co_await p.schedule(user_val(1, tv(1))) == 17) vc_run(9); else vc_run(10); co_return; }
extern "C" {
bool vc_p_resume(pool& p, void* h) { return p.resume(std::coroutine_handle<>::from_address(h)); }
std::size_t vc_p_resume_n(pool& p, const std::vector<std::coroutine_handle<>>& v) { return p.resume(v); }
std::size_t vc_p_resume_s(pool& p, const std::span<std::coroutine_handle<>>& v) { return p.resume(v); }
void vc_p_executor(pool& p, std::size_t i) { p.executor(i); }
void vc_p_shutdown(pool& p) { p.shutdown(); }
void vc_p_dtor(pool& p) { p.pool::~thread_pool(); }
void vc_p_functors(pool::options* o, bool a, bool b) { ::new (o) pool::options{.thread_count = 4, .on_thread_start_functor = nullptr, .on_thread_stop_functor = nullptr}; if (a) o->on_thread_start_functor = [](std::size_t i) { vc_started(i); }; if (b) o->on_thread_stop_functor = [](std::size_t i) { vc_stopped(i); }; }
std::size_t vc_p_size(const pool& p) { return p.size(); }
bool vc_p_empty(const pool& p) { return p.empty(); }
std::size_t vc_p_queue_size(const pool& p) { return p.queue_size(); }
bool vc_p_queue_empty(const pool& p) { return p.queue_empty(); }
bool vc_p_is_shutdown(const pool& p) { return p.is_shutdown(); }
bool vc_p_spawn_detached(pool& p) { return p.spawn_detached(user(1, tv(1))); }
void vc_p_spawn_joinable(pool& p, void* out) { ::new (out) task<void>(p.spawn_joinable(user(1, tv(1)))); }
void vc_p_make(void* out, pool::options& o) { ::new (out) std::unique_ptr<pool>(pool::make_unique(o)); }
void* vc_p_on_pool(pool& p) { auto t = on_pool(p); return std::exchange(t.m_coroutine, nullptr).address(); }
void* vc_p_yields(pool& p) { auto t = yields(p); return std::exchange(t.m_coroutine, nullptr).address(); }
void* vc_p_outer(pool& p) { auto t = outer(p); return std::exchange(t.m_coroutine, nullptr).address(); }
void* vc_p_outer_val(pool& p) { auto t = outer_val(p); return std::exchange(t.m_coroutine, nullptr).address(); }
}
