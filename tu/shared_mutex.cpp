#include "src/mutex.cpp"
#include "exec.hpp"
#include "coro/shared_mutex.hpp"
#include "vc.hpp"
using M = coro::shared_mutex<vc_executor>; using OP = coro::detail::shared_lock_operation<vc_executor>; using VT = coro::task<void>;
extern "C" void vc_user(); extern "C" void vc_fx_unlock(void*); extern "C" void vc_fx_unlock_shared(void*);
static VT user() { vc_user(); co_return; }
static VT stub_unlock(void* p) { vc_fx_unlock(p); co_return; }
static VT stub_unlock_shared(void* p) { vc_fx_unlock_shared(p); co_return; }
VC_SIZE(sm, M) VC_OFF(sm_mutex, M, m_mutex) VC_OFF(sm_state, M, m_state) VC_OFF(sm_users, M, m_shared_users) VC_OFF(sm_ew, M, m_exclusive_waiters) VC_OFF(sm_head, M, m_head_waiter) VC_OFF(sm_tail, M, m_tail_waiter) VC_OFF(sm_executor, M, m_executor)
VC_SIZE(op, OP) VC_OFF(op_next, OP, m_next) VC_OFF(op_handle, OP, m_awaiting_coroutine) VC_OFF(op_exclusive, OP, m_exclusive) VC_OFF(op_mutex, OP, m_shared_mutex)
VC_OFF(lockop_mutex, coro::detail::lock_operation_base, m_mutex)
extern "C" {
void vc_ctor(std::unique_ptr<vc_executor>& e, void* p) { ::new (p) M(e); }
void* vc_executor_of(M& m) { return &m.executor(); }
void vc_lock(M& m, void* p) { ::new (p) VT(m.lock()); }
void vc_lock_shared(M& m, void* p) { ::new (p) VT(m.lock_shared()); }
bool vc_try_lock(M& m) { return m.try_lock(); }
bool vc_try_lock_shared(M& m) { return m.try_lock_shared(); }
void vc_unlock(M& m, void* p) { ::new (p) VT(m.unlock()); }
void vc_unlock_shared(M& m, void* p) { ::new (p) VT(m.unlock_shared()); }
void vc_scoped(M& m, void* p) { ::new (p) VT(m.scoped_lock(user())); }
void vc_scoped_shared(M& m, void* p) { ::new (p) VT(m.scoped_lock_shared(user())); }
void vc_stub_unlock(void* m, void* p) { ::new (p) VT(stub_unlock(m)); }
void vc_stub_unlock_shared(void* m, void* p) { ::new (p) VT(stub_unlock_shared(m)); }
void vc_vresult(VT& t) { t.promise().result(); }
}
