#include "src/semaphore.cpp"
#include "src/mutex.cpp"
#include "vc.hpp"
template class coro::semaphore<1>;
template class coro::semaphore<7>;
#define SEM(N) \
VC_OFF(sem##N##_counter, coro::semaphore<N>, m_counter) \
VC_OFF(sem##N##_waiters, coro::semaphore<N>, m_acquire_waiters) \
VC_OFF(sem##N##_mutex, coro::semaphore<N>, m_mutex) \
VC_OFF(sem##N##_shutdown, coro::semaphore<N>, m_shutdown) \
VC_SIZE(sem##N, coro::semaphore<N>) \
VC_OFF(acq##N##_next, coro::detail::acquire_operation<N>, m_next) \
VC_OFF(acq##N##_handle, coro::detail::acquire_operation<N>, m_awaiting_coroutine) \
VC_SIZE(acq##N, coro::detail::acquire_operation<N>) \
extern "C" void vc_sem##N##_ctor(void* p, std::ptrdiff_t n) { ::new (p) coro::semaphore<N>(n); } \
extern "C" void vc_sem##N##_acquire(coro::semaphore<N>& s, void* p) { ::new (p) coro::task<coro::semaphore_acquire_result>(s.acquire()); } \
extern "C" void vc_sem##N##_release(coro::semaphore<N>& s, void* p) { ::new (p) coro::task<void>(s.release()); } \
extern "C" void vc_sem##N##_shutdown(coro::semaphore<N>& s, void* p) { ::new (p) coro::task<void>(s.shutdown()); } \
extern "C" bool vc_sem##N##_try(coro::semaphore<N>& s) { return s.try_acquire(); } \
extern "C" long vc_sem##N##_value(coro::semaphore<N>& s) { return s.value(); } \
extern "C" bool vc_sem##N##_is_shutdown(coro::semaphore<N>& s) { return s.is_shutdown(); }
SEM(1) SEM(7)
VC_OFF(lockop_mutex, coro::detail::lock_operation_base, m_mutex)
VC_SIZE(task, coro::task<void>)
extern "C" int vc_result(coro::task<coro::semaphore_acquire_result>& t) { return static_cast<int>(std::move(t.promise()).result()); }
extern "C" void vc_vresult(coro::task<void>& t) { t.promise().result(); }
