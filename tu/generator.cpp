#include <ranges>
#include "coro/generator.hpp"
#include "tracked.hpp"
#include "vc.hpp"
#include <new>
using coro::generator;
extern "C" { void vc_enter(); bool vc_more(); std::uint64_t vc_id(); void vc_obj(const void*); void vc_resumed(); void vc_leave(); void vc_got(std::uint64_t, const void*); bool vc_stop(); void vc_end(); void vc_caught(); void* vc_cell(); }
static std::uint64_t val(const tv& v) { return v.id; }
static std::uint64_t val(const std::uint64_t& v) { return v; }
#define GEN(name, T, stmt) static generator<T> b_##name() { tv own{7}; vc_enter(); while (vc_more()) { std::uint64_t i = vc_id(); stmt; vc_resumed(); } vc_leave(); } \
  using G_##name = generator<T>; using I_##name = G_##name::iterator; extern "C" { \
  void vc_make_##name(void* p) { ::new (p) G_##name(b_##name()); } \
  void vc_dtor_##name(G_##name& g) { g.~generator(); } \
  void vc_for_##name(G_##name& g) { try { for (auto&& x : g) { vc_got(val(x), &x); if (vc_stop()) return; } vc_end(); } catch (...) { vc_caught(); } } \
  void vc_begin_##name(void* p, G_##name& g) { ::new (p) I_##name(g.begin()); } \
  bool vc_more_##name(I_##name& i, G_##name& g) { return i != g.end(); } \
  bool vc_done_##name(I_##name& i, G_##name& g) { return g.end() == i; } \
  void vc_inc_##name(I_##name& i) { ++i; } void vc_post_##name(I_##name& i) { i++; } \
  void vc_star_##name(I_##name& i) { auto&& x = *i; vc_got(val(x), &x); } }
#define ARROW(name) extern "C" void vc_arrow_##name(I_##name& i) { auto* x = i.operator->(); vc_got(val(*x), x); }
#define MOVES(name) extern "C" { void vc_mctor_##name(G_##name& g, void* p) { ::new (p) G_##name(std::move(g)); } void vc_assign_##name(G_##name& g, G_##name& o) { g = std::move(o); } void vc_dctor_##name(void* p) { ::new (p) G_##name(); } }
GEN(int, std::uint64_t, co_yield i)
GEN(intt, std::uint64_t, co_yield i + 0)
GEN(local, tv, tv v(i); vc_obj(&v); co_yield v)
GEN(temp, tv, co_yield tv(i))
GEN(moved, tv, tv v(i); vc_obj(&v); co_yield std::move(v))
GEN(const, const tv, const tv v(i); vc_obj(&v); co_yield v)
GEN(ref, tv&, (void)i; auto& v = *static_cast<tv*>(vc_cell()); vc_obj(&v); co_yield v)
GEN(cref, const tv&, (void)i; auto& v = *static_cast<const tv*>(vc_cell()); vc_obj(&v); co_yield v)
GEN(rref, tv&&, co_yield tv(i))
GEN(two, tv, tv v(i); vc_obj(&v); co_yield v; vc_resumed(); std::uint64_t j = vc_id(); tv w(j); vc_obj(&w); co_yield w)
ARROW(int) ARROW(intt) ARROW(local) ARROW(temp) ARROW(moved) ARROW(const) ARROW(ref) ARROW(cref) ARROW(two)
MOVES(local) MOVES(int) MOVES(ref)
