// Shared helpers of the replay drivers: they search for a concrete failing input or schedule on the real code.
#pragma once
#include <atomic>
#include <chrono>
#include <coroutine>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <thread>
#include <unistd.h>
#include <vector>
#define FAIL(...) do { std::printf("FAILING INPUT: "); std::printf(__VA_ARGS__); std::printf("\n"); std::fflush(stdout); _exit(1); } while (0)
#define CHECK(c, ...) do { if (!(c)) FAIL(__VA_ARGS__); } while (0)
namespace rp
{
inline uint64_t seed() { const char* s = std::getenv("VERIF_SEED"); return s ? std::strtoull(s, nullptr, 10) : 1; }
inline std::atomic<uint64_t> g_tid{1};
inline bool g_chaos = false;
__attribute__((no_sanitize("coverage"))) inline uint64_t rnd()
{
    static thread_local uint64_t x = 0;
    if (x == 0) x = seed() * 0x9E3779B97F4A7C15ull + g_tid.fetch_add(1, std::memory_order::relaxed) * 0xD1B54A32D192ED03ull + 1;
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    return x;
}
inline std::atomic<const char*> g_what{"start"};
inline std::atomic<uint64_t> g_beat{0};
// every scenario announces itself; if one makes no progress for `s` seconds it hangs: a lost wakeup
inline void scenario(const char* n) { g_what.store(n); g_beat.fetch_add(1); }
inline void watchdog(int s)
{
    std::thread([s] {
        uint64_t last = 0; int idle = 0;
        for (;;)
        {
            std::this_thread::sleep_for(std::chrono::seconds(1));
            auto b = g_beat.load();
            idle = b == last ? idle + 1 : 0; last = b;
            if (idle >= s) { std::printf("WATCHDOG FAILING INPUT: scenario '%s' never completes (a waiter is lost or the operation hangs)\n", g_what.load()); std::fflush(stdout); _exit(1); }
        }
    }).detach();
}
// fire-and-forget coroutine
struct fire
{
    struct promise_type
    {
        fire get_return_object() { return {}; }
        std::suspend_never initial_suspend() noexcept { return {}; }
        std::suspend_never final_suspend() noexcept { return {}; }
        void return_void() {}
        void unhandled_exception() { std::terminate(); }
    };
};
inline void par(int n, const std::function<void(int)>& f)
{
    std::vector<std::thread> t; std::atomic<int> go{0};
    for (int i = 0; i < n; ++i) t.emplace_back([&, i] { go.fetch_add(1); while (go.load() < n) {} f(i); });
    for (auto& x : t) x.join();
}
}
#ifdef RP_CHAOS
extern "C" __attribute__((no_sanitize("coverage"))) inline void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { for (; a < b; ++a) *a = 1; }
extern "C" __attribute__((no_sanitize("coverage"))) inline void __sanitizer_cov_trace_pc_guard(uint32_t*)
{
    if (!rp::g_chaos) return;
    auto r = rp::rnd() & 1023;
    if (r < 40) sched_yield();
    else if (r < 44) usleep(r & 63);
}
#endif
