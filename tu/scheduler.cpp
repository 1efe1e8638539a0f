#include "coro/when_any.hpp"
#include "src/event.cpp"
#include "src/detail/task_self_deleting.cpp"
#include "src/scheduler.cpp"
#include "tracked.hpp"
#include "vc.hpp"
#include <new>
using namespace coro; using sched = scheduler; using op = scheduler::schedule_operation; using detail::poll_info;
VC_SIZE(sched, sched) VC_OFF(s_strategy, sched, m_opts.execution_strategy) VC_OFF(s_threads, sched, m_opts.thread_strategy) VC_OFF(s_opts, sched, m_opts) VC_OFF(s_io, sched, m_io_notifier) VC_OFF(s_timer, sched, m_timer) VC_OFF(s_shutpipe, sched, m_shutdown_pipe) VC_OFF(s_schedpipe, sched, m_schedule_pipe) VC_OFF(s_triggered, sched, m_schedule_pipe_triggered)
VC_OFF(s_ops, sched, m_scheduled_ops) VC_OFF(s_size, sched, m_size) VC_OFF(s_thread, sched, m_io_thread) VC_OFF(s_pool, sched, m_thread_pool) VC_OFF(s_mutex, sched, m_timed_events_mutex) VC_OFF(s_events, sched, m_timed_events) VC_OFF(s_shut, sched, m_shutdown_requested)
VC_OFF(s_processing, sched, m_io_processing) VC_OFF(s_recent, sched, m_recent_events) VC_OFF(s_handles, sched, m_handles_to_resume)
VC_SIZE(op, op) VC_OFF(op_next, op, m_next) VC_OFF(op_handle, op, m_awaiting_coroutine) VC_OFF(op_alloc, op, m_allocated) VC_SIZE(task, task<void>)
VC_SIZE(pi, poll_info) VC_OFF(pi_fd, poll_info, m_fd) VC_OFF(pi_op, poll_info, m_op) VC_OFF(pi_pos, poll_info, m_timer_pos) VC_OFF(pi_handle, poll_info, m_awaiting_coroutine) VC_OFF(pi_status, poll_info, m_poll_status) VC_OFF(pi_done, poll_info, m_processed) VC_OFF(pi_cancel, poll_info, m_cancel_trigger)
using pos = std::optional<poll_info::timed_events::iterator>; VC_SIZE(pos, pos)
static_assert(sizeof(poll_info::timed_events::iterator) == 8);
#define VC_VAL(n, e) extern "C" const unsigned long VC_off_##n = static_cast<unsigned long>(e);
#define P(x) VC_VAL(st_##x, poll_status::x)
P(read) P(write) P(timeout) P(error) P(closed) P(cancelled)
VC_VAL(op_read, poll_op::read) VC_VAL(op_write, poll_op::write) VC_VAL(op_rw, poll_op::read_write)
VC_VAL(finished, sched::m_finished) VC_VAL(spawned, sched::thread_strategy_t::spawn) VC_VAL(manual, sched::thread_strategy_t::manual) VC_SIZE(opts, sched::options)
VC_VAL(inl, sched::execution_strategy_t::process_tasks_inline) VC_VAL(onpool, sched::execution_strategy_t::process_tasks_on_thread_pool)
using pos_t = poll_info::timed_events::iterator; using ms = std::chrono::milliseconds; using ns = std::chrono::nanoseconds; using us = std::chrono::microseconds; using secs = std::chrono::seconds; using ptask = task<poll_status>;
using expect = expected<void, timeout_status>;
extern "C" { void vc_enter(std::uint64_t); bool vc_ready(std::uint64_t); void vc_point(std::uint64_t, void*); void vc_run(std::uint64_t); }
struct point { std::uint64_t n; bool await_ready() { return vc_ready(n); } void await_suspend(std::coroutine_handle<> h) { vc_point(n, h.address()); } void await_resume() { vc_run(n); } };
static task<void> user(std::uint64_t n, tv) { vc_enter(n); tv local(n); co_await point{n}; tv other(n); (void)other; co_return; }
static task<std::uint64_t> user_val(std::uint64_t n, tv) { vc_enter(n); tv local(n); co_await point{n}; co_return 17; }
static task<void> on_sched(sched& p) { co_await p.schedule(); vc_run(0); co_return; }
static task<void> yields(sched& p) { co_await p.yield(); vc_run(0); co_return; }
static task<void> outer(sched& p) { co_await p.schedule(user(1, tv(1))); vc_run(9); co_return; }
static task<void> outer_val(sched& p) { if (co_await p.schedule(user_val(1, tv(1))) == 17) vc_run(9); else vc_run(10); co_return; }
template<typename T> static void* out(T&& t) { return std::exchange(t.m_coroutine, nullptr).address(); }
extern "C" {
void vc_pos_some(void* p, void* node) { ::new (p) pos(std::in_place); *static_cast<void**>(p) = node; }
void vc_pos_none(void* p) { ::new (p) pos(); }
bool vc_pos_has(const pos& p) { return p.has_value(); }
void vc_pi(void* p, int fd, poll_op o, bool cancel, int cfd) { cancel ? ::new (p) poll_info(fd, o, coro::poll_stop_token{cfd}) : ::new (p) poll_info(fd, o); }
const void* vc_timer_ptr() { return sched::m_timer_ptr; } const void* vc_sched_ptr() { return sched::m_schedule_ptr; } const void* vc_shut_ptr() { return sched::m_shutdown_ptr; }
bool vc_has_cancel(const poll_info& p) { return p.m_cancel_trigger.has_value(); } int vc_cancel_of(const poll_info& p) { return p.m_cancel_trigger->native_handle(); }
// C14
void vc_event(sched& s, poll_info* p, poll_status st) { s.process_event_execute(p, st); }
void vc_timeouts(sched& s) { s.process_timeout_execute(); }
void vc_add(sched& s, long tp, poll_info& p, void* o) { ::new (o) pos_t(s.add_timer_token(time_point{ns{tp}}, p)); }
void vc_remove(sched& s, void* node) { pos_t x; *reinterpret_cast<void**>(&x) = node; s.remove_timer_token(x); }
void vc_process(sched& s, long t) { s.process_events_execute(ms{t}); }
void vc_stop(void* p, bool c, int cfd) { using K = std::optional<poll_stop_token>; std::memset(p, 0, sizeof(K)); c ? ::new (p) K(poll_stop_token{cfd}) : ::new (p) K(); }
VC_SIZE(stop, std::optional<poll_stop_token>)
void* vc_poll(sched& s, int fd, poll_op o, long t, const std::optional<poll_stop_token>& k) { return out(s.poll(fd, o, ms{t}, k)); }
int vc_poll_result(void* h) { return static_cast<int>(std::coroutine_handle<ptask::promise_type>::from_address(h).promise().result()); }
void* vc_yield_for(sched& s, long t) { return out(s.yield_for(ns{t})); }
void* vc_after_ms(sched& s, long t) { return out(s.schedule_after(ms{t})); }
void* vc_yield_until(sched& s, long t) { return out(s.yield_until(time_point{ns{t}})); }
void* vc_at(sched& s, long t) { return out(s.schedule_at(time_point{ns{t}})); }
void* vc_timed_ns(sched& s, long t) { return out(s.schedule(user(1, tv(1)), ns{t})); }
void* vc_timed_us(sched& s, long t) { return out(s.schedule(user_val(1, tv(1)), us{t})); }
void* vc_timed_s(sched& s, long t) { return out(s.schedule(user_val(1, tv(1)), secs{t})); }
void* vc_stop_us(sched& s, long t) { return out(s.schedule(std::stop_source{std::nostopstate}, user_val(1, tv(1)), us{t})); }
void* vc_timeout_task(sched& s, long t) { return out(s.make_timeout_task(ms{t})); }
int vc_timeout_result(void* h) { return static_cast<int>(std::coroutine_handle<task<timeout_status>::promise_type>::from_address(h).promise().result()); }
// C15
void vc_started(); void vc_stopped();
bool vc_s_resume(sched& s, void* h) { return s.resume(std::coroutine_handle<>::from_address(h)); }
std::size_t vc_s_resume_n(sched& s, const std::vector<std::coroutine_handle<>>& v) { return s.resume(v); }
void vc_s_scheduled(sched& s) { s.process_scheduled_execute_inline(); }
void vc_s_shutdown(sched& s) { s.shutdown(); }
void vc_s_dtor(sched& s) { s.sched::~scheduler(); }
void vc_s_loop(sched& s) { s.process_events_dedicated_thread(); }
std::size_t vc_s_manual(sched& s, long t) { return s.process_events(ms{t}); }
std::size_t vc_s_size(const sched& s) { return s.size(); } bool vc_s_empty(const sched& s) { return s.empty(); } bool vc_s_is_shutdown(const sched& s) { return s.is_shutdown(); }
bool vc_s_spawn_detached(sched& s) { return s.spawn_detached(user(1, tv(1))); }
void vc_s_spawn_joinable(sched& s, void* o) { ::new (o) task<void>(s.spawn_joinable(user(1, tv(1)))); }
void* vc_s_on(sched& s) { return out(on_sched(s)); } void* vc_s_yields(sched& s) { return out(yields(s)); } void* vc_s_outer(sched& s) { return out(outer(s)); } void* vc_s_outer_val(sched& s) { return out(outer_val(s)); }
void vc_s_functors(sched::options* o, bool a, bool b) { ::new (o) sched::options{.thread_strategy = sched::thread_strategy_t::spawn, .on_io_thread_start_functor = nullptr, .on_io_thread_stop_functor = nullptr, .pool = {.thread_count = 4, .on_thread_start_functor = nullptr, .on_thread_stop_functor = nullptr}, .execution_strategy = sched::execution_strategy_t::process_tasks_inline}; if (a) o->on_io_thread_start_functor = [] { vc_started(); }; if (b) o->on_io_thread_stop_functor = [] { vc_stopped(); }; }
void vc_s_make(void* out, sched::options& o) { ::new (out) std::unique_ptr<sched>(sched::make_unique(o)); }
}
