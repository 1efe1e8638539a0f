#include "src/mutex.cpp"
#include "coro/queue.hpp"
#include "elem.hpp"
#include "exec.hpp"
#include "vc.hpp"
using Q = coro::queue<elem>;
VC_SIZE(queue, Q)
VC_OFF(q_waiters, Q, m_waiters)
VC_OFF(q_mutex, Q, m_mutex)
VC_OFF(q_elements, Q, m_elements)
VC_OFF(q_state, Q, m_running_state)
VC_SIZE(aw, Q::awaiter)
VC_OFF(aw_next, Q::awaiter, m_next)
VC_OFF(aw_handle, Q::awaiter, m_awaiting_coroutine)
VC_OFF(aw_element, Q::awaiter, m_element)
VC_OFF(aw_queue, Q::awaiter, m_queue)
VC_OFF(lockop_mutex, coro::detail::lock_operation_base, m_mutex)
using PT = coro::task<coro::queue_produce_result>; using CR = coro::expected<elem, coro::queue_consume_result>; using CT = coro::task<CR>; using VT = coro::task<void>;
extern "C" {
void vc_ctor(void* p) { ::new (p) Q(); }
void vc_push_copy(Q& q, const elem& e, void* p) { ::new (p) PT(q.push(e)); }
void vc_push_move(Q& q, elem& e, void* p) { ::new (p) PT(q.push(std::move(e))); }
void vc_emplace_id(Q& q, std::uint64_t& e, void* p) { ::new (p) PT(q.emplace(e)); }
void vc_emplace_copy(Q& q, const elem& e, void* p) { ::new (p) PT(q.emplace(e)); }
void vc_emplace_move(Q& q, elem& e, void* p) { ::new (p) PT(q.emplace(std::move(e))); }
void vc_pop(Q& q, void* p) { ::new (p) CT(q.pop()); }
void vc_shutdown(Q& q, void* p) { ::new (p) VT(q.shutdown()); }
void vc_drain(Q& q, std::unique_ptr<vc_executor>& e, void* p) { ::new (p) VT(q.shutdown_drain(e)); }
bool vc_is_shutdown(Q& q) { return q.is_shutdown(); }
int vc_presult(PT& t) { return static_cast<int>(std::move(t.promise()).result()); }
void vc_vresult(VT& t) { t.promise().result(); }
int vc_take(CR& r, std::uint64_t* id) { if (!r.has_value()) return 1 + static_cast<int>(r.error()); *id = r->id; return 0; }
int vc_cresult(CT& t, std::uint64_t* id) { auto r = std::move(t.promise()).result(); return vc_take(r, id); }
int vc_try_pop(Q& q, std::uint64_t* id) { auto r = q.try_pop(); return vc_take(r, id); }
void vc_elem_copy(void* p, const elem& e) { ::new (p) elem(e); }
void vc_elem_move(void* p, elem& e) { ::new (p) elem(std::move(e)); }
void vc_elem_id(void* p, std::uint64_t& e) { ::new (p) elem(e); }
std::uint64_t vc_opt(std::optional<elem>& o, bool* has) { *has = o.has_value(); return *has ? o->id : 0; }
void vc_opt_empty(void* p) { ::new (p) std::optional<elem>(); }
void vc_opt_make(void* p, std::uint64_t id) { ::new (p) std::optional<elem>(id); }
}
