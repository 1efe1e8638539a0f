// RUN: -O1 -fsanitize=address,undefined | | 60
#include "rp.hpp"
#include <ranges>
#include <coro/generator.hpp>
#include <memory>
#include <string>
using namespace rp; using coro::generator;
struct mine { long id; };
static long frames, live, produced; static bool left;
struct guard { guard() { ++frames; } ~guard() { --frames; } };
struct T { std::unique_ptr<long> p; explicit T(long i) : p(new long(i)) { ++live; } T(T&& o) noexcept : p(std::move(o.p)) { ++live; } T(const T& o) : p(new long(*o.p)) { ++live; } ~T() { --live; } };
static long idof(const T& t) { return t.p ? *t.p : -1; }
static long idof(const long& v) { return v; }
static const void* where; static std::unique_ptr<T> cell; static const T& ccell() { return *cell; }
#define GEN(name, R, stmt) static generator<R> name(int n, int thr) { guard g; produced = 0; left = false; for (int k = 0; k < n; ++k) { if (k == thr) throw mine{k}; long i = produced = 10 + k; where = nullptr; stmt; } if (thr == n) throw mine{n}; left = true; }
GEN(g_long, long, co_yield i) GEN(g_longt, long, co_yield i + 0) GEN(g_local, T, T v(i); where = &v; co_yield v) GEN(g_temp, T, co_yield T(i)) GEN(g_moved, T, T v(i); where = &v; co_yield std::move(v))
GEN(g_const, const T, const T v(i); where = &v; co_yield v) GEN(g_ref, T&, *cell->p = i; where = cell.get(); co_yield *cell) GEN(g_cref, const T&, *cell->p = i; where = cell.get(); co_yield ccell()) GEN(g_rref, T&&, co_yield T(i)) GEN(g_clong, const long&, const long v = i; where = &v; co_yield v)
template<class F> static void one(const char* what, F make)
{
    scenario(what); cell = std::make_unique<T>(0); long base = live;
    for (int n = 0; n < 4; ++n) for (int thr = -1; thr <= n; ++thr) for (int stop = 0; stop < 6; ++stop) for (int how = 0; how < 5; ++how)
    {
        auto d = std::string(what) + ": " + std::to_string(n) + " values, " + (thr < 0 ? "returns" : "throws after " + std::to_string(thr)) + ", consumer stops after " + std::to_string(stop) + ", way " + std::to_string(how); auto D = d.c_str();
        long seen = 0, exc = -1; bool end = false; produced = -1; left = false;
        {
            auto g = make(n, thr); CHECK(produced == -1, "%s: the body runs before it is asked", D);
            if (how == 1) { auto h = std::move(g); g = std::move(h); } if (how == 2) { auto other = make(2, -1); other.begin(); CHECK(frames == 1, "%s: frames %ld", D, frames); other = std::move(g); g = std::move(other); CHECK(frames == 0, "%s: the replaced generator's frame is not destroyed", D); produced = -1; left = false; }
            if (how == 3) g = std::move(*&g);
            auto see = [&](auto&& x) { ++seen; CHECK(idof(x) == 9 + seen, "%s: value %ld instead of %ld", D, idof(x), 9 + seen); if (where) CHECK(&x == where, "%s: another object than the one yielded", D); CHECK(produced == 9 + seen, "%s: the body has run ahead", D); };
            try
            {
                if (how == 4) { auto it = g.begin(); for (; it != g.end(); it++) { see(*it); CHECK(idof(*it) == 9 + seen && idof(*it) == 9 + seen, "%s: dereferencing again gives another value", D); if (seen == stop) break; } end = it == g.end(); }
                else { end = true; for (auto&& x : g) { see(x); if (seen == stop) { end = false; break; } } }
            } catch (mine& m) { exc = m.id; end = false; }
            long total = thr < 0 ? n : thr; bool stops = stop > 0 && stop <= total;
            CHECK(seen == (stops ? stop : total), "%s: %ld values", D, seen);
            if (!stops) { if (thr < 0) CHECK(end && left && exc == -1, "%s: does not end properly", D); else CHECK(exc == thr, "%s: the exception is lost or changed (%ld)", D, exc); } else CHECK(exc == -1 && !end, "%s: ends early", D);
        }
        CHECK(frames == 0, "%s: %ld frames leaked", D, frames); CHECK(live == base, "%s: %ld values leaked", D, live - base);
    }
    cell.reset();
}
int main()
{
    watchdog(30); generator<long> e; CHECK(e.begin() == e.end(), "an empty generator has values");
    one("generator<long>", g_long); one("generator<long> of temporaries", g_longt); one("generator<T> of locals", g_local); one("generator<T> of temporaries", g_temp); one("generator<T> of moved locals", g_moved); one("generator<const T>", g_const); one("generator<T&>", g_ref); one("generator<const T&>", g_cref); one("generator<T&&>", g_rref); one("generator<const long&>", g_clong);
    std::printf("no failing input found\n"); std::fflush(stdout); _exit(0);
}
