#include "src/default_executor.cpp"
#include "vc.hpp"
using namespace coro;
using tpo = thread_pool::options; using sco = scheduler::options;
VC_SIZE(tpo, tpo) VC_OFF(tpo_count, tpo, thread_count) VC_OFF(tpo_start, tpo, on_thread_start_functor) VC_OFF(tpo_stop, tpo, on_thread_stop_functor)
VC_SIZE(sco, sco) VC_OFF(sco_strategy, sco, thread_strategy) VC_OFF(sco_start, sco, on_io_thread_start_functor) VC_OFF(sco_stop, sco, on_io_thread_stop_functor) VC_OFF(sco_pool, sco, pool) VC_OFF(sco_exec, sco, execution_strategy)
extern "C" {
void* vc_init() { return &s_default_executor_init; } void* vc_ptr() { return &s_default_executor_ptr; } void* vc_holder() { return &s_default_executor; } void* vc_options() { return &s_default_executor_options; }
void* vc_io_init() { return &s_default_io_executor_init; } void* vc_io_ptr() { return &s_default_io_executor_ptr; } void* vc_io_holder() { return &s_default_io_executor; } void* vc_io_options() { return &s_default_io_executor_options; }
void* vc_executor() { return &default_executor::executor(); }
void* vc_io_executor() { return &default_executor::io_executor(); }
void* vc_perfect() { return &default_executor::perfect<std::unique_ptr<scheduler>>(); }
void vc_set(const tpo& o) { default_executor::set_executor_options(o); }
void vc_io_set(const sco& o) { default_executor::set_io_executor_options(o); }
}
