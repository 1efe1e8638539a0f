#pragma once
#include "coro/concepts/executor.hpp"
// an executor of which only the interface is known: every member has an assumed contract
struct vc_executor
{
    struct op { bool await_ready() noexcept; void await_suspend(std::coroutine_handle<>) noexcept; void await_resume() noexcept; };
    auto schedule() -> op;
    auto spawn_detached(coro::task<void>&&) -> bool;
    auto spawn_joinable(coro::task<void>&&) -> coro::task<void>;
    auto yield() -> op;
    auto resume(std::coroutine_handle<>) -> bool;
    auto size() -> std::size_t;
    auto empty() -> bool;
    auto shutdown() -> void;
};
static_assert(coro::concepts::executor<vc_executor>);
