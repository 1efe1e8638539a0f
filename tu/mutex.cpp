#include "src/mutex.cpp"
#include "vc.hpp"
template struct coro::detail::lock_operation<void>;
template struct coro::detail::lock_operation<coro::scoped_lock>;
VC_OFF(mutex_state, coro::mutex, m_state)
VC_SIZE(mutex, coro::mutex)
VC_OFF(lockop_next, coro::detail::lock_operation_base, m_next)
VC_OFF(lockop_handle, coro::detail::lock_operation_base, m_awaiting_coroutine)
VC_SIZE(lockop, coro::detail::lock_operation<void>)
VC_SIZE(scoped_lock, coro::scoped_lock)
VC_OFF(scoped_mutex, coro::scoped_lock, m_mutex)
// entry points: instantiate the inline members so that they are extracted
extern "C" void vc_mutex_ctor(void* p) { ::new (p) coro::mutex(); }
extern "C" void vc_lock(coro::mutex& m, void* p) { ::new (p) coro::detail::lock_operation<void>(m.lock()); }
extern "C" void vc_scoped(coro::mutex& m, void* p) { ::new (p) coro::detail::lock_operation<coro::scoped_lock>(m.scoped_lock()); }
extern "C" void vc_sl_ctor(coro::mutex& m, void* p) { ::new (p) coro::scoped_lock(m); }
extern "C" void vc_sl_move(coro::scoped_lock& o, void* p) { ::new (p) coro::scoped_lock(std::move(o)); }
extern "C" void vc_sl_assign(coro::scoped_lock& d, coro::scoped_lock& o) { d = std::move(o); }
extern "C" void vc_sl_dtor(coro::scoped_lock& d) { d.~scoped_lock(); }
