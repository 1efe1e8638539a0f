#include "coro/when_all.hpp"
#include "coro/task.hpp"
#include "tracked.hpp"
#include "vc.hpp"
#include <new>
using namespace coro; using L = detail::when_all_latch;
VC_SIZE(latch, L) VC_OFF(l_count, L, m_count) VC_OFF(l_handle, L, m_awaiting_coroutine)
extern "C" { bool vc_ready(std::uint64_t); void vc_point(std::uint64_t, void*); std::uint64_t vc_id(std::uint64_t); void* vc_cell(std::uint64_t); void vc_slot(std::uint64_t, std::uint64_t, const void*); void vc_slot_throws(std::uint64_t); void vc_start(); void vc_end(); }
template<class T> struct aw
{
    std::uint64_t n;
    bool await_ready() { return vc_ready(n); }
    void await_suspend(std::coroutine_handle<> h) { vc_point(n, h.address()); }
    T await_resume()
    {
        std::uint64_t i = vc_id(n);
        if constexpr (std::is_void_v<T>) return; else if constexpr (std::is_reference_v<T>) return static_cast<T>(*static_cast<tv*>(vc_cell(n))); else return T(i);
    }
};
static std::uint64_t val(const tv& v) { return v.id; }
static std::uint64_t val(std::uint64_t v) { return v; }
static std::uint64_t val(detail::void_value) { return 0; }
template<class F> static void slot(std::uint64_t n, F f) { try { auto&& r = f(); vc_slot(n, val(r), &r); } catch (...) { vc_slot_throws(n); } }
extern "C" {
void vc_l_ctor(void* p, std::size_t n) { ::new (p) L(n); }
void vc_l_move(void* p, L& l) { ::new (p) L(std::move(l)); }
void vc_l_assign(L& p, L& l) { p = std::move(l); }
bool vc_l_try_await(L& l, void* h) { return l.try_await(std::coroutine_handle<>::from_address(h)); }
void vc_l_notify(L& l) { l.notify_awaitable_completed(); }
bool vc_l_ready(const L& l) { return l.is_ready(); }
}
// one wrapped child
#define CHILD(name, T) using WT_##name = detail::when_all_task<T>; extern "C" { \
  void vc_c_make_##name(void* p, std::uint64_t n) { ::new (p) WT_##name(detail::make_when_all_task(aw<T>{n})); } \
  void vc_c_start_##name(WT_##name& t, L& l) { t.m_coroutine.promise().start(l); } \
  void vc_c_dtor_##name(WT_##name& t) { t.~when_all_task(); } \
  void vc_c_move_##name(WT_##name& t, void* p) { ::new (p) WT_##name(std::move(t)); } \
  void vc_c_l_##name(WT_##name& t) { slot(0, [&]() -> decltype(auto) { return t.return_value(); }); } \
  }
#define CHILDR(name) extern "C" void vc_c_r_##name(WT_##name& t) { slot(0, [&]() -> decltype(auto) { return std::move(t).return_value(); }); }
CHILD(void, void) CHILD(int, std::uint64_t) CHILD(val, tv) CHILD(ref, tv&)
CHILDR(void) CHILDR(int) CHILDR(val)
#define CHILDC(name) extern "C" void vc_c_c_##name(const WT_##name& t) { slot(0, [&]() -> decltype(auto) { return t.return_value(); }); }
CHILDC(int) CHILDC(val) CHILDC(ref)
// any number of children
using VT = detail::when_all_task<tv>; using VA = detail::when_all_ready_awaitable<std::vector<VT>>; using VV = detail::when_all_task<void>; using VVA = detail::when_all_ready_awaitable<std::vector<VV>>;
VC_SIZE(va, VA) VC_OFF(va_latch, VA, m_latch) VC_OFF(va_tasks, VA, m_tasks) VC_SIZE(aw, aw<tv>) VC_SIZE(task, VT)
extern "C" {
bool vc_v_try(VA& a, void* h) { return a.try_await(std::coroutine_handle<>::from_address(h)); }
bool vc_v_suspend_l(VA& a, void* h) { auto w = a.operator co_await(); return w.await_suspend(std::coroutine_handle<>::from_address(h)); }
bool vc_v_suspend_r(VA& a, void* h) { auto w = std::move(a).operator co_await(); return w.await_suspend(std::coroutine_handle<>::from_address(h)); }
bool vc_vv_try(VVA& a, void* h) { return a.try_await(std::coroutine_handle<>::from_address(h)); }
bool vc_v_ready(VA& a) { auto w = a.operator co_await(); return w.await_ready(); }
void* vc_v_resume_l(VA& a) { auto w = a.operator co_await(); return &w.await_resume(); }
void* vc_v_resume_r(VA& a) { auto w = std::move(a).operator co_await(); auto&& r = w.await_resume(); return &r; }
void vc_v_move(void* p, VA& a) { ::new (p) VA(std::move(a)); }
void vc_v_make(void* p, std::vector<aw<tv>>& in) { ::new (p) VA(when_all(std::move(in))); }
}
// a fixed list of children, run as a whole
static task<void> w0() { vc_start(); auto r = co_await when_all(); (void)r; vc_end(); }
static task<void> w1() { vc_start(); auto r = co_await when_all(aw<tv>{0}); slot(0, [&]() -> decltype(auto) { return std::get<0>(r).return_value(); }); vc_end(); }
static task<void> w2() { vc_start(); auto r = co_await when_all(aw<tv>{0}, aw<std::uint64_t>{1}); slot(0, [&]() -> decltype(auto) { return std::get<0>(r).return_value(); }); slot(1, [&]() -> decltype(auto) { return std::get<1>(r).return_value(); }); vc_end(); }
static task<void> w3() { vc_start(); auto r = co_await when_all(aw<std::uint64_t>{0}, aw<void>{1}, aw<tv>{2}); slot(0, [&]() -> decltype(auto) { return std::get<0>(r).return_value(); }); slot(1, [&]() -> decltype(auto) { return std::get<1>(r).return_value(); }); slot(2, [&]() -> decltype(auto) { return std::move(std::get<2>(r)).return_value(); }); vc_end(); }
static task<void> w2l() { vc_start(); auto w = when_all(aw<tv>{0}, aw<tv&>{1}); auto& r = co_await w; slot(0, [&]() -> decltype(auto) { return std::get<0>(r).return_value(); }); slot(1, [&]() -> decltype(auto) { return std::get<1>(r).return_value(); }); vc_end(); }
static task<void> w2m() { vc_start(); auto w0 = when_all(aw<tv>{0}, aw<void>{1}); auto w = std::move(w0); auto r = co_await std::move(w); slot(0, [&]() -> decltype(auto) { return std::get<0>(r).return_value(); }); slot(1, [&]() -> decltype(auto) { return std::get<1>(r).return_value(); }); vc_end(); }
#define WHOLE(n) extern "C" void vc_##n(void* p) { ::new (p) task<void>(n()); }
WHOLE(w0) WHOLE(w1) WHOLE(w2) WHOLE(w3) WHOLE(w2l) WHOLE(w2m)
extern "C" void vc_dtor_task(task<void>& t) { t.~task(); }
extern "C" void vc_task_result(task<void>& t) { t.promise().result(); }
