#include "src/sync_wait.cpp"
#include "coro/task.hpp"
#include "tracked.hpp"
#include "vc.hpp"
#include <new>
using namespace coro; using E = detail::sync_wait_event;
VC_SIZE(event, E) VC_OFF(e_mutex, E, m_mutex) VC_OFF(e_cv, E, m_cv) VC_OFF(e_set, E, m_set)
extern "C" { bool vc_point_ready(); void vc_point(void*); std::uint64_t vc_id(); void* vc_cell(); }
// an awaitable of which nothing is known: it may be ready, it may suspend and be continued by any thread, it may throw anywhere
template<class T> struct aw
{
    bool await_ready() { return vc_point_ready(); }
    void await_suspend(std::coroutine_handle<> h) { vc_point(h.address()); }
    T await_resume()
    {
        std::uint64_t i = vc_id();
        if constexpr (std::is_void_v<T>) return; else if constexpr (std::is_reference_v<T>) return static_cast<T>(*static_cast<tv*>(vc_cell())); else return T(i);
    }
};
static std::uint64_t val(const tv& v) { return v.id; }
static std::uint64_t val(const tvc& v) { return v.id; }
static std::uint64_t val(std::uint64_t v) { return v; }
#define W(name, T) extern "C" std::uint64_t vc_sw_##name(const void** p) { auto&& r = sync_wait(aw<T>{}); *p = &r; return val(r); } extern "C" std::uint64_t vc_swl_##name(const void** p) { aw<T> a; auto&& r = sync_wait(a); *p = &r; return val(r); }
W(int, std::uint64_t) W(cint, const std::uint64_t) W(val, tv) W(cval, const tv) W(ref, tv&) W(cref, const tv&)
extern "C" std::uint64_t vc_sw_void(const void** p) { sync_wait(aw<void>{}); return 0; }
extern "C" std::uint64_t vc_swl_void(const void** p) { aw<void> a; sync_wait(a); return 0; }
// a task
static task<tv> body() { tv x(co_await aw<std::uint64_t>{}); co_return x; }
static task<void> vbody() { co_await aw<void>{}; }
extern "C" std::uint64_t vc_sw_task(const void** p) { return val(sync_wait(body())); }
extern "C" std::uint64_t vc_swl_task(const void** p) { auto t = body(); auto&& r = sync_wait(t); *p = &r; return val(r); }
extern "C" std::uint64_t vc_sw_vtask(const void** p) { sync_wait(vbody()); return 0; }
extern "C" std::uint64_t vc_swl_vtask(const void** p) { auto t = vbody(); sync_wait(t); return 0; }
extern "C" { void vc_e_ctor(void* p, bool b) { ::new (p) E(b); } void vc_e_set(E& e) { e.set(); } void vc_e_reset(E& e) { e.reset(); } void vc_e_wait(E& e) { e.wait(); } }
