#include "src/event.cpp"
#include "coro/latch.hpp"
#include "vc.hpp"
VC_OFF(event_state, coro::event, m_state)
VC_SIZE(event, coro::event)
VC_OFF(aw_next, coro::event::awaiter, m_next)
VC_OFF(aw_handle, coro::event::awaiter, m_awaiting_coroutine)
VC_OFF(aw_event, coro::event::awaiter, m_event)
VC_SIZE(awaiter, coro::event::awaiter)
VC_SIZE(latch, coro::latch)
VC_OFF(latch_count, coro::latch, m_count)
VC_OFF(latch_event, coro::latch, m_event)
extern "C" void vc_event_ctor(void* p, bool s) { ::new (p) coro::event(s); }
extern "C" void vc_event_await(coro::event& e, void* p) { ::new (p) coro::event::awaiter(e.operator co_await()); }
extern "C" bool vc_event_is_set(coro::event& e) { return e.is_set(); }
extern "C" bool vc_aw_ready(coro::event::awaiter& a) { return a.await_ready(); }
extern "C" void vc_aw_resume(coro::event::awaiter& a) { a.await_resume(); }
extern "C" void vc_event_set_ex(coro::event& e, std::unique_ptr<coro::thread_pool>& x, coro::resume_order_policy p) { e.set(x, p); }
extern "C" void vc_latch_ctor(void* p, std::int64_t n) { ::new (p) coro::latch(n); }
extern "C" bool vc_latch_ready(coro::latch& l) { return l.is_ready(); }
extern "C" std::size_t vc_latch_remaining(coro::latch& l) { return l.remaining(); }
extern "C" void vc_latch_down(coro::latch& l, std::int64_t n) { l.count_down(n); }
extern "C" void vc_latch_down_ex(coro::latch& l, std::unique_ptr<coro::thread_pool>& x, std::int64_t n) { l.count_down(x, n); }
extern "C" void vc_latch_await(coro::latch& l, void* p) { ::new (p) coro::event::awaiter(l.operator co_await()); }
