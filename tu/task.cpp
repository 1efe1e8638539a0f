#include "coro/task.hpp"
#include "tracked.hpp"
#include "vc.hpp"
#include <new>
using coro::task;
extern "C" { void vc_enter(); void vc_leave(); bool vc_point_ready() noexcept; void vc_point(void*) noexcept; std::uint64_t vc_id(); void vc_got(std::uint64_t, const void*); void vc_outer_start(); void vc_outer_end(); void vc_outer_caught(); }
struct point { bool await_ready() noexcept { return vc_point_ready(); } void await_suspend(std::coroutine_handle<> h) noexcept { vc_point(h.address()); } void await_resume() noexcept {} };
static tv* cell; static const tv* ccell;
extern "C" { void* vc_cell(); }
#define BODY(name, T, stmt) static task<T> b_##name() { vc_enter(); co_await point{}; std::uint64_t i = vc_id(); stmt }
BODY(void, void, (void)i; co_return;)
BODY(int, std::uint64_t, co_return i;)
BODY(cint, const std::uint64_t, co_return i;)
BODY(temp, tv, co_return tv{i};)
BODY(local, tv, tv x{i}; co_return x;)
BODY(moved, tv, tv x{i}; co_return std::move(x);)
BODY(copied, tv, tv x{i}; const tv& r = x; co_return r;)
BODY(conv, tv, co_return i;)
BODY(const, const tv, tv x{i}; co_return x;)
BODY(pinned, tvc, const tvc x{i}; co_return x;)
BODY(pinnedt, tvc, co_return tvc{i};)
BODY(ref, tv&, (void)i; co_return *static_cast<tv*>(vc_cell());)
BODY(cref, const tv&, (void)i; co_return *static_cast<tv*>(vc_cell());)
static std::uint64_t val(const tv& v) { return v.id; }
static std::uint64_t val(const tvc& v) { return v.id; }
static std::uint64_t val(std::uint64_t v) { return v; }
// awaits an lvalue task
#define OUT_L(name, T) static task<void> ol_##name(task<T>& t) { vc_outer_start(); try { auto&& r = co_await t; vc_got(val(r), &r); } catch (...) { vc_outer_caught(); co_return; } vc_outer_end(); }
// awaits an rvalue task, owns it
#define OUT_R(name, T) static task<void> or_##name(task<T> t) { vc_outer_start(); try { T r = co_await std::move(t); vc_got(val(r), &r); } catch (...) { vc_outer_caught(); co_return; } vc_outer_end(); }
#define EACH(X) X(int, std::uint64_t) X(cint, const std::uint64_t) X(temp, tv) X(local, tv) X(moved, tv) X(copied, tv) X(conv, tv) X(const, const tv) X(pinned, tvc) X(pinnedt, tvc) X(ref, tv&) X(cref, const tv&)
EACH(OUT_L) EACH(OUT_R)
static task<void> ol_void(task<void>& t) { vc_outer_start(); try { co_await t; vc_got(0, nullptr); } catch (...) { vc_outer_caught(); co_return; } vc_outer_end(); }
static task<void> or_void(task<void> t) { vc_outer_start(); try { co_await std::move(t); vc_got(0, nullptr); } catch (...) { vc_outer_caught(); co_return; } vc_outer_end(); }
#define ENTRY(name, T) extern "C" { \
  void vc_make_##name(void* p) { ::new (p) task<T>(b_##name()); } \
  void vc_outl_##name(task<T>& t, void* p) { ::new (p) task<void>(ol_##name(t)); } \
  void vc_outr_##name(task<T>& t, void* p) { ::new (p) task<void>(or_##name(std::move(t))); } \
  void vc_dtor_##name(task<T>& t) { t.~task(); } \
  void vc_mctor_##name(task<T>& t, void* p) { ::new (p) task<T>(std::move(t)); } \
  void vc_assign_##name(task<T>& t, task<T>& o) { t = std::move(o); } \
  void vc_dctor_##name(void* p) { ::new (p) task<T>(); } \
  bool vc_ready_##name(const task<T>& t) { return t.is_ready(); } \
  bool vc_resume_##name(task<T>& t) { return t.resume(); } \
  bool vc_destroy_##name(task<T>& t) { return t.destroy(); } \
  void* vc_handle_##name(task<T>& t) { return t.handle().address(); } \
  bool vc_awready_##name(const task<T>& t) { auto a = t.operator co_await(); return a.await_ready(); } }
EACH(ENTRY) ENTRY(void, void)
#define RES(name, T) extern "C" { \
  const void* vc_resl_##name(task<T>& t) { auto&& r = t.promise().result(); return &r; } \
  const void* vc_resc_##name(const task<T>& t) { auto&& r = t.promise().result(); return &r; } \
  std::uint64_t vc_resr_##name(task<T>& t) { T r = std::move(t).promise().result(); return val(r); } }
EACH(RES)
extern "C" { void vc_resl_void(task<void>& t) { t.promise().result(); } void vc_resr_void(task<void>& t) { std::move(t).promise().result(); } }
