// RUN: -O1 -fsanitize-coverage=trace-pc-guard -DRP_CHAOS -DLIBCORO_FEATURE_NETWORKING | src/default_executor.cpp src/scheduler.cpp src/thread_pool.cpp src/event.cpp src/mutex.cpp src/sync_wait.cpp src/detail/task_self_deleting.cpp src/detail/pipe.cpp src/detail/timer_handle.cpp src/detail/io_notifier_epoll.cpp src/net/socket.cpp src/net/ip_address.cpp src/poll.cpp | 100
#include "rp.hpp"
#include <coro/default_executor.hpp>
#include <dlfcn.h>
#include <mutex>
#include <pthread.h>
#include <set>
#include <sys/wait.h>
using namespace rp;
static std::atomic<int> fail_next{0}, starts{0}, live{0};
static thread_local bool ours = false;      // creating threads fails only inside the library
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* p) noexcept
{
    static auto real = reinterpret_cast<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>(dlsym(RTLD_NEXT, "pthread_create"));
    if (ours) { int n = fail_next.load(); while (n > 0 && !fail_next.compare_exchange_weak(n, n - 1)) {} if (n > 0) return EAGAIN; }
    return real(t, a, f, p);
}
template<typename F>
static void run(const char* kind, int threads, int pool, int fails, F get)
{
    auto what = [&] { static char d[160]; std::snprintf(d, sizeof d, "%s: %d threads ask first, pool of %d, the first %d thread creations fail", kind, threads, pool, fails); return d; };
    alarm(15); fail_next = fails; std::mutex m; std::set<void*> got; std::atomic<int> thrown{0}, ready{0}; std::vector<std::thread> ts; g_chaos = true;
    for (int i = 0; i < threads; ++i) ts.emplace_back([&] {
        ready.fetch_add(1); while (ready.load() < threads) {}
        ours = true; void* p = nullptr;
        try { p = get(); } catch (const std::exception&) { thrown.fetch_add(1); try { p = get(); } catch (...) { try { p = get(); } catch (...) {} } }
        ours = false; std::scoped_lock lk{m}; if (!p) { std::printf("FAILING INPUT: %s: no executor is handed out\n", what()); std::fflush(stdout); _exit(1); } got.insert(p); });
    for (auto& t : ts) t.join();
    g_chaos = false; for (int i = 0; i < 50000 && starts.load() < pool; ++i) usleep(100);
    usleep(500);
    CHECK(got.size() == 1, "%s: %zu different executors are handed out", what(), got.size()); CHECK(live.load() == pool, "%s: %d executor threads with the given options are running", what(), live.load());
    CHECK(starts.load() == pool + 0 || fails, "%s: %d executor threads were started: more than one executor was created", what(), starts.load()); _exit(0);
}
static void hang(int) { const char m[] = "WATCHDOG FAILING INPUT: asking for the default executor never returns\n"; if (write(1, m, sizeof m - 1)) {} _exit(1); }
int main()
{
    signal(SIGALRM, hang);
    for (int round = 0; round < 60; ++round) for (int io = 0; io < 2; ++io) for (int fails : {0, 1, 2})
    {
        if (fails && round % 4) continue;
        int threads = 1 + (round * 5) % 8, pool = 1 + round % 3; std::fflush(stdout);
        pid_t p = fork();
        if (p == 0)
        {
            g_tid = 1 + round * 100; coro::thread_pool::options o; o.thread_count = io ? 1 : pool; o.on_thread_start_functor = [](std::size_t) { ++starts; ++live; }; o.on_thread_stop_functor = [](std::size_t) { --live; };
            if (!io) { coro::default_executor::set_executor_options(o); run("executor()", threads, pool, fails, [] { return static_cast<void*>(coro::default_executor::executor().get()); }); }
            coro::scheduler::options s; s.pool = o; s.execution_strategy = coro::scheduler::execution_strategy_t::process_tasks_on_thread_pool; s.on_io_thread_start_functor = [] { ++starts; ++live; }; s.on_io_thread_stop_functor = [] { --live; };
            coro::default_executor::set_io_executor_options(s); run("io_executor()", threads, 2, fails, [] { return static_cast<void*>(coro::default_executor::io_executor().get()); });
        }
        int st = 0; waitpid(p, &st, 0);
        if (!WIFEXITED(st)) FAIL("asking %s first from %d threads kills the process (signal %d)", io ? "io_executor()" : "executor()", threads, WTERMSIG(st));
        if (WEXITSTATUS(st)) _exit(1);
    }
    std::printf("no failing input found\n"); std::fflush(stdout); std::exit(0);
}
