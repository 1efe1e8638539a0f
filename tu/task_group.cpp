#include "src/event.cpp"
#include "src/detail/task_self_deleting.cpp"
#include "coro/task_group.hpp"
#include "exec.hpp"
#include "tracked.hpp"
#include "vc.hpp"
#include <new>
using namespace coro;
using group = task_group<vc_executor>; using detail::task_self_deleting;
VC_SIZE(group, group) VC_OFF(g_size, group, m_size) VC_OFF(g_event, group, m_on_empty_event) VC_OFF(g_exec, group, m_executor) VC_SIZE(sd, task_self_deleting) VC_SIZE(awaiter, event::awaiter)
VC_OFF(aw_event, event::awaiter, m_event)
extern "C" { void vc_enter(std::uint64_t); bool vc_ready(std::uint64_t); void vc_point(std::uint64_t, void*); void vc_run(std::uint64_t); void vc_count_down(void*); }
struct point { std::uint64_t n; bool await_ready() { return vc_ready(n); } void await_suspend(std::coroutine_handle<> h) { vc_point(n, h.address()); } void await_resume() { vc_run(n); } };
static task<void> user(std::uint64_t n, tv) { vc_enter(n); tv local(n); co_await point{n}; tv other(n); (void)other; co_return; }
static task<void> plain() { vc_enter(0); co_return; }
extern "C" {
void vc_sd_make(void* p, bool fs, void* o) { auto t = detail::make_task_self_deleting(user(1, tv(1))); if (fs) t.promise().user_final_suspend([o]() -> void { vc_count_down(o); }); ::new (p) task_self_deleting(std::move(t)); }
void vc_sd_make_plain(void* p, void* o) { ::new (p) task_self_deleting(detail::make_task_self_deleting(plain())); static_cast<task_self_deleting*>(p)->promise().user_final_suspend([o]() -> void { vc_count_down(o); }); }
void vc_sd_resume(task_self_deleting& t) { t.resume(); }
void* vc_sd_handle(task_self_deleting& t) { return t.handle().address(); }
void* vc_sd_chandle(const task_self_deleting& t) { return t.handle().address(); }
void vc_sd_destroy(task_self_deleting& t) { t.handle().destroy(); }
void vc_sd_assign(task_self_deleting& a, task_self_deleting& b) { a = std::move(b); }
void vc_g_ctor(void* p, vc_executor* e) { ::new (p) group(e); }
void vc_g_uctor(void* p, std::unique_ptr<vc_executor>& e) { ::new (p) group(e); }
void vc_g_ctor1(void* p, vc_executor* e) { ::new (p) group(e, user(1, tv(1))); }
void vc_g_uctor1(void* p, std::unique_ptr<vc_executor>& e) { ::new (p) group(e, user(1, tv(1))); }
void vc_g_ctorn(void* p, vc_executor* e, std::vector<task<void>>& v) { ::new (p) group(e, std::move(v)); }
void vc_g_dtor(group& g) { g.~group(); }
bool vc_g_start(group& g) { task<void> t = user(1, tv(1)); return g.start(std::move(t)); }
bool vc_g_plain(group& g) { return g.start(plain()); }
std::size_t vc_g_size(const group& g) { return g.size(); }
bool vc_g_empty(const group& g) { return g.empty(); }
void vc_g_await(const group& g, void* p) { ::new (p) event::awaiter(g.operator co_await()); }
}
