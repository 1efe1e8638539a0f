// RUN: -O1 -fsanitize=address,undefined | src/semaphore.cpp src/event.cpp src/mutex.cpp src/sync_wait.cpp | 60
// RUN: -O1 -DRP_CHAOS -fsanitize-coverage=trace-pc-guard | src/semaphore.cpp src/event.cpp src/mutex.cpp src/sync_wait.cpp | 90
// RUN: -O1 -fsanitize=thread | src/semaphore.cpp src/event.cpp src/mutex.cpp src/sync_wait.cpp | 90
#include "rp.hpp"
#include <coro/semaphore.hpp>
using namespace rp;
using R = coro::semaphore_acquire_result;
template<long N>
void sequential()
{
    scenario("sequential");
    // every script of up to 7 operations (acquire / release / try_acquire / shutdown) against a counting oracle
    for (long start = 0; start <= N; ++start)
        for (int len = 1; len <= 7; ++len)
            for (int code = 0; code < (1 << (2 * len)); code += 1 + (len > 5 ? (int)(rnd() % 7) : 0))
            {
                auto s = std::make_unique<coro::semaphore<N>>(start);
                long avail = start, waiting = 0, ok = 0, shut = 0, oks = 0, shuts = 0; bool down = false;
                auto acq = [&]() -> fire { auto r = co_await s->acquire(); (r == R::acquired ? oks : shuts)++; };
                auto rel = [&]() -> fire { co_await s->release(); };
                auto end = [&]() -> fire { co_await s->shutdown(); };
                for (int i = 0; i < len; ++i)
                {
                    switch ((code >> (2 * i)) & 3)
                    {
                        case 0: if (down) ++shut; else if (avail > 0) { --avail; ++ok; } else ++waiting; acq(); break;
                        case 1: if (avail < N) { if (waiting > 0) { --waiting; ++ok; } else ++avail; } rel(); break;
                        case 2: { bool e = avail > 0; if (e) --avail; bool g = s->try_acquire(); CHECK(g == e, "semaphore<%ld>(%ld) script %x step %d: try_acquire returned %d", N, start, code, i, g); break; }
                        default: shut += waiting; waiting = 0; down = true; end(); break;
                    }
                    CHECK(s->value() == avail && oks == ok && shuts == shut && s->is_shutdown() == down, "semaphore<%ld>(%ld) script %x step %d: permits %ld (expected %ld), acquired %ld (%ld), told shutdown %ld (%ld)", N, start, code, i, (long)s->value(), avail, oks, ok, shuts, shut);
                }
                shut += waiting; s.reset();
                CHECK(shuts == shut, "semaphore<%ld>(%ld) script %x: %ld of %ld waiters told about the destructor's shutdown", N, start, code, shuts, shut);
            }
}
template<long N>
void threads()
{
    scenario("threads");
    long start = rnd() % (N + 1); bool sd = rnd() & 1;
    auto s = std::make_unique<coro::semaphore<N>>(start);
    std::atomic<long> oks{0}, shuts{0}, tries{0}, rels{0}, begun{0}; int data = 0; long in = 0; std::atomic<long> inside{0};
    auto acq = [&]() -> fire { begun.fetch_add(1); auto r = co_await s->acquire(); if (r == R::acquired) oks.fetch_add(1); else shuts.fetch_add(1); };
    auto rel = [&]() -> fire { co_await s->release(); rels.fetch_add(1); };
    auto end = [&]() -> fire { co_await s->shutdown(); };
    (void)data; (void)in;
    par(4, [&](int t) {
        for (int i = 0; i < 4; ++i)
            if (t < 2) acq();
            else if (t == 2 || !sd) { if (i & 1 && s->try_acquire()) tries.fetch_add(1); rel(); }
            else if (i == 2) end();
    });
    long got = oks.load() + tries.load(), v = s->value();
    CHECK(v >= 0 && v <= N, "permits %ld outside 0..%ld", v, N);
    CHECK(got + v <= start + rels.load(), "semaphore<%ld>(%ld): %ld acquired + %ld available after %ld releases", N, start, got, v, rels.load());
    if (sd) CHECK(begun.load() == oks.load() + shuts.load(), "after shutdown %ld of %ld acquires are still waiting", begun.load() - oks.load() - shuts.load(), begun.load());
    else { CHECK(shuts.load() == 0, "told shutdown although running"); CHECK(v == 0 || begun.load() == oks.load(), "%ld permits available while %ld acquires wait", v, begun.load() - oks.load()); if (begun.load() > oks.load()) CHECK(got + v == start + rels.load() || N < 8, "permit lost: %ld acquired + %ld available, %ld + %ld released", got, v, start, rels.load()); }
    long w = begun.load() - oks.load() - shuts.load(), b = shuts.load(); s.reset();
    CHECK(shuts.load() == b + w, "destructor released %ld of %ld waiters", shuts.load() - b, w);
}
// exclusion and visibility: a binary semaphore protects plain data
void exclusive()
{
    scenario("exclusive");
    auto s = std::make_unique<coro::semaphore<1>>(1); long data = 0; std::atomic<int> fin{0};
    auto w = [&]() -> fire { for (int i = 0; i < 20; ++i) { (void)co_await s->acquire(); data = data + 1; co_await s->release(); } fin.fetch_add(1); };
    par(3, [&](int) { w(); });
    CHECK(fin.load() == 3, "only %d of 3 tasks get the permit back", fin.load()); CHECK(data == 60, "updates under a binary semaphore lost: %ld of 60", data);
}
int main()
{
    watchdog(20);
    sequential<1>(); sequential<3>();
    g_chaos = true;
    auto end = std::chrono::steady_clock::now() + std::chrono::seconds(25);
    while (std::chrono::steady_clock::now() < end) { threads<1>(); threads<2>(); threads<9>(); exclusive(); }
    std::puts("no failing input found");
    _exit(0);
}
