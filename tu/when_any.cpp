#include "src/event.cpp"
#include "src/detail/task_self_deleting.cpp"
#include "coro/when_any.hpp"
#include "tracked.hpp"
#include "vc.hpp"
#include <new>
using namespace coro;
VC_SIZE(event, coro::event) VC_SIZE(aw, std::uint64_t[1])
extern "C" { bool vc_ready(std::uint64_t); void vc_point(std::uint64_t, void*); std::uint64_t vc_id(std::uint64_t); void* vc_cell(std::uint64_t); void vc_won(std::uint64_t, std::uint64_t); void vc_start(); void vc_end(); void vc_caught(); }
template<class T> struct aw
{
    std::uint64_t n;
    bool await_ready() { return vc_ready(n); }
    void await_suspend(std::coroutine_handle<> h) { vc_point(n, h.address()); }
    T await_resume()
    {
        std::uint64_t i = vc_id(n);
        if constexpr (std::is_void_v<T>) return; else if constexpr (std::is_reference_v<T>) return static_cast<T>(*static_cast<tv*>(vc_cell(n))); else return T(i);
    }
};
static std::uint64_t val(const tv& v) { return v.id; }
static std::uint64_t val(std::uint64_t v) { return v; }
static std::uint64_t val(std::monostate) { return 0; }
template<class V> static void won(V& v) { std::uint64_t k = 0; if (auto* p = std::get_if<0>(&v)) vc_won(0, val(*p)); if constexpr (std::variant_size_v<V> > 1) if (auto* p = std::get_if<1>(&v)) vc_won(1, val(*p)); if constexpr (std::variant_size_v<V> > 2) if (auto* p = std::get_if<2>(&v)) vc_won(2, val(*p)); }
// one child, the other children are the environment
using OT = std::optional<tv>; using OI = std::optional<std::uint64_t>; using OV = std::optional<std::variant<tv, std::monostate, std::uint64_t>>;
VC_SIZE(opt_val, OT) VC_SIZE(opt_int, OI) VC_SIZE(opt_tup0, OV) VC_SIZE(opt_tup1, OV) VC_SIZE(opt_tup2, OV)
extern "C" {
void vc_k_val(void* p, std::atomic<bool>& f, event& e, OT& r) { ::new (p) task<void>(detail::make_when_any_task<aw<tv>, tv>(aw<tv>{0}, f, e, r)); }
void vc_k_ref(void* p, std::atomic<bool>& f, event& e, OT& r) { ::new (p) task<void>(detail::make_when_any_task<aw<tv&>, tv>(aw<tv&>{0}, f, e, r)); }
void vc_k_int(void* p, std::atomic<bool>& f, event& e, OI& r) { ::new (p) task<void>(detail::make_when_any_task<aw<std::uint64_t>, std::uint64_t>(aw<std::uint64_t>{0}, f, e, r)); }
void vc_k_void(void* p, std::atomic<bool>& f, event& e, OT&) { ::new (p) task<void>(detail::make_when_any_task_return_void<aw<void>>(aw<void>{0}, f, e)); }
void vc_k_tup0(void* p, std::atomic<bool>& f, event& e, OV& r) { ::new (p) task<void>(detail::make_when_any_tuple_task<0>(f, e, r, aw<tv>{0})); }
void vc_k_tup1(void* p, std::atomic<bool>& f, event& e, OV& r) { ::new (p) task<void>(detail::make_when_any_tuple_task<1>(f, e, r, aw<void>{0})); }
void vc_k_tup2(void* p, std::atomic<bool>& f, event& e, OV& r) { ::new (p) task<void>(detail::make_when_any_tuple_task<2>(f, e, r, aw<std::uint64_t>{0})); }
void vc_get_val(OT& o) { if (o) vc_won(0, o->id); } void vc_get_ref(OT& o) { if (o) vc_won(0, o->id); } void vc_get_int(OI& o) { if (o) vc_won(0, *o); } void vc_get_void(OT& o) { if (o) vc_won(7, 0); }
void vc_get_tup0(OV& o) { if (o) won(*o); } void vc_get_tup1(OV& o) { if (o) won(*o); } void vc_get_tup2(OV& o) { if (o) won(*o); }
void vc_new_val(void* p) { ::new (p) OT; } void vc_new_ref(void* p) { ::new (p) OT; } void vc_new_int(void* p) { ::new (p) OI; } void vc_new_void(void* p) { ::new (p) OT; } void vc_new_tup0(void* p) { ::new (p) OV; } void vc_new_tup1(void* p) { ::new (p) OV; } void vc_new_tup2(void* p) { ::new (p) OV; }
void vc_del_val(OT& p) { p.~OT(); } void vc_del_ref(OT& p) { p.~OT(); } void vc_del_int(OI& p) { p.~OI(); } void vc_del_void(OT& p) { p.~OT(); } void vc_del_tup0(OV& p) { p.~OV(); } void vc_del_tup1(OV& p) { p.~OV(); } void vc_del_tup2(OV& p) { p.~OV(); }
void vc_dtor_task(task<void>& t) { t.~task(); }
void vc_task_result(task<void>& t) { t.promise().result(); }
void vc_ctl_val(std::vector<aw<tv>>& in, event& e, OT& r) { auto t = detail::make_when_any_controller_task(std::move(in), e, r); t.handle().resume(); }
void vc_ctl_void(std::vector<aw<void>>& in, event& e) { auto t = detail::make_when_any_controller_task_return_void(std::move(in), e); t.handle().resume(); }
}
// a fixed list of children, run as a whole
#define WHOLE(n, body) static task<void> n(std::stop_source& s) { vc_start(); try { body } catch (...) { vc_caught(); } vc_end(); } extern "C" void vc_##n(void* p, std::stop_source& s) { ::new (p) task<void>(n(s)); }
template<class T> static std::vector<aw<T>> list(std::size_t n) { std::vector<aw<T>> v; v.reserve(n); for (std::size_t k = 0; k < n; ++k) v.push_back(aw<T>{k}); return v; }
WHOLE(a1, auto v = co_await when_any(aw<tv>{0}); won(v);)
WHOLE(a2, auto v = co_await when_any(aw<tv>{0}, aw<void>{1}); won(v);)
WHOLE(a2s, auto v = co_await when_any(s, aw<std::uint64_t>{0}, aw<tv&>{1}); won(v);)
WHOLE(a3, auto v = co_await when_any(aw<tv>{0}, aw<void>{1}, aw<std::uint64_t>{2}); won(v);)
WHOLE(l1, auto v = co_await when_any(list<tv>(1)); vc_won(9, val(v));)
WHOLE(l2, auto v = co_await when_any(list<tv>(2)); vc_won(9, val(v));)
WHOLE(l2s, auto v = co_await when_any(s, list<std::uint64_t>(2)); vc_won(9, val(v));)
WHOLE(l2r, auto v = co_await when_any(s, list<tv&>(2)); vc_won(9, val(v));)
WHOLE(l2v, co_await when_any(list<void>(2)); vc_won(9, 0);)
WHOLE(l2vs, co_await when_any(s, list<void>(2)); vc_won(9, 0);)
WHOLE(l3, auto v = co_await when_any(list<std::uint64_t>(3)); vc_won(9, val(v));)
