#include "src/mutex.cpp"
#include "coro/ring_buffer.hpp"
#include "elem.hpp"
#include "exec.hpp"
#include "vc.hpp"
extern "C" void vc_fx_consumers(void*); extern "C" void vc_fx_producers(void*);
static coro::task<void> vc_stub_c(void* p) { vc_fx_consumers(p); co_return; }
static coro::task<void> vc_stub_p(void* p) { vc_fx_producers(p); co_return; }
using PT = coro::task<coro::ring_buffer_result::produce>; using CR = coro::expected<elem, coro::ring_buffer_result::consume>; using CT = coro::task<CR>; using VT = coro::task<void>;
using OE = std::optional<elem>;
extern "C" {
void vc_stub_consumers(void* rb, void* p) { ::new (p) VT(vc_stub_c(rb)); }
void vc_stub_producers(void* rb, void* p) { ::new (p) VT(vc_stub_p(rb)); }
int vc_presult(PT& t) { return static_cast<int>(std::move(t.promise()).result()); }
void vc_vresult(VT& t) { t.promise().result(); }
int vc_cresult(CT& t, std::uint64_t* id) { auto r = std::move(t.promise()).result(); if (!r.has_value()) return 1 + static_cast<int>(r.error()); *id = r->id; return 0; }
std::uint64_t vc_opt(OE& o, bool* has) { *has = o.has_value(); return *has ? o->id : 0; }
void vc_opt_empty(void* p) { ::new (p) OE(); }
void vc_opt_make(void* p, std::uint64_t id) { ::new (p) OE(id); }
}
VC_SIZE(optional, OE)
VC_OFF(lockop_mutex, coro::detail::lock_operation_base, m_mutex)
#define RB(N) using R##N = coro::ring_buffer<elem, N>; \
VC_SIZE(rb##N, R##N) VC_OFF(rb##N##_mutex, R##N, m_mutex) VC_OFF(rb##N##_elements, R##N, m_elements) VC_OFF(rb##N##_front, R##N, m_front) VC_OFF(rb##N##_back, R##N, m_back) \
VC_OFF(rb##N##_used, R##N, m_used) VC_OFF(rb##N##_pw, R##N, m_produce_waiters) VC_OFF(rb##N##_cw, R##N, m_consume_waiters) VC_OFF(rb##N##_state, R##N, m_running_state) \
VC_SIZE(po##N, R##N::produce_operation) VC_OFF(po##N##_next, R##N::produce_operation, m_next) VC_OFF(po##N##_handle, R##N::produce_operation, m_awaiting_coroutine) VC_OFF(po##N##_e, R##N::produce_operation, m_e) VC_OFF(po##N##_result, R##N::produce_operation, m_result) VC_OFF(po##N##_rb, R##N::produce_operation, m_rb) \
VC_SIZE(co##N, R##N::consume_operation) VC_OFF(co##N##_next, R##N::consume_operation, m_next) VC_OFF(co##N##_handle, R##N::consume_operation, m_awaiting_coroutine) VC_OFF(co##N##_e, R##N::consume_operation, m_e) VC_OFF(co##N##_result, R##N::consume_operation, m_result) VC_OFF(co##N##_rb, R##N::consume_operation, m_rb) \
extern "C" { \
void vc_ctor##N(void* p) { ::new (p) R##N(); } \
void vc_produce##N(R##N& q, elem& e, void* p) { ::new (p) PT(q.produce(std::move(e))); } \
void vc_consume##N(R##N& q, void* p) { ::new (p) CT(q.consume()); } \
void vc_notify_p##N(R##N& q, void* p) { ::new (p) VT(q.notify_producers()); } \
void vc_notify_c##N(R##N& q, void* p) { ::new (p) VT(q.notify_consumers()); } \
void vc_resume_p##N(R##N& q, void* p) { ::new (p) VT(q.try_resume_producers()); } \
void vc_resume_c##N(R##N& q, void* p) { ::new (p) VT(q.try_resume_consumers()); } \
void vc_shutdown##N(R##N& q, void* p) { ::new (p) VT(q.shutdown()); } \
void vc_drain##N(R##N& q, std::unique_ptr<vc_executor>& e, void* p) { ::new (p) VT(q.shutdown_drain(e)); } \
bool vc_is_shutdown##N(R##N& q) { return q.is_shutdown(); } \
std::size_t vc_size##N(R##N& q) { return q.size(); } bool vc_empty##N(R##N& q) { return q.empty(); } bool vc_full##N(R##N& q) { return q.full(); } std::size_t vc_max##N(R##N& q) { return q.max_size(); } \
}
RB(1) RB(3)
