#include <coroutine>
#include <cstddef>
#include <new>
#include <type_traits>
#include <utility>
#include <vector>
#include "utl/generator.h"
struct box {                       // a value that is gone where it was moved from
  box() : v{0} {}
  explicit box(long x) : v{x} {}
  box(box&& o) noexcept : v{o.v} { o.v = 0; }
  box& operator=(box&& o) noexcept { v = o.v; o.v = 0; return *this; }
  box(box const& o) : v{o.v} {}
  box& operator=(box const& o) { v = o.v; return *this; }
  long v;
};
using gen = utl::generator<long>;
using prom = gen::promise_type;
using bgen = utl::generator<box>;
using bprom = bgen::promise_type;
extern "C" {
void coro(void* promise, void* value, void* exception, unsigned kind) noexcept;   // a suspended coroutine with this promise
void sink(long v) noexcept;                   // a value is handed out
void ended(bool b) noexcept;                  // the generator says there is nothing more
void vec(std::vector<long> const* v) noexcept;  // all values
void same(long a, long b) noexcept;
void holds(void const* exception_ptr) noexcept;   // the exception is kept
bool some() noexcept;
}
#define MAKE(P, n, k) \
  alignas(P) unsigned char n[sizeof(P)]; \
  auto* const n##p = new (n) P; \
  coro(n##p, &n##p->value_, &n##p->exception_, k)
#define GEN(g, n, k) MAKE(prom, n, k); gen g{std::coroutine_handle<prom>::from_promise(*n##p)}
static void keep(gen g) { while (g) { sink(g()); } ended(true); }
extern "C" {
void g_all() { GEN(g, p, 0); while (g) { sink(g()); } ended(true); }
void g_box() { MAKE(bprom, p, 0); bgen g{std::coroutine_handle<bprom>::from_promise(*pp)}; while (g) { sink(g().v); } ended(true); }
void g_peek() { GEN(g, p, 0); while (g) { while (some()) { if (!g) { return; } } sink(g()); } ended(true); }
void g_raw() { GEN(g, p, 1); while (some()) { sink(g()); } }
void g_raw_box() { MAKE(bprom, p, 1); bgen g{std::coroutine_handle<bprom>::from_promise(*pp)}; while (some()) { if (some() && !g) { return; } sink(g().v); } }
void g_some() { GEN(g, p, 0); while (some()) { if (g) { sink(g()); } else { ended(true); return; } } }
void g_unread() { GEN(g, p, 0); }
void g_after_end() { GEN(g, p, 0); while (g) { sink(g()); } ended(!g); ended(!g); }
void g_after_throw() { GEN(g, p, 2); try { while (g) { sink(g()); } } catch (...) { ended(!g); ended(!g); } }
void g_vec() { GEN(g, p, 0); auto const v = g.to_vec(); vec(&v); ended(!g); }
void g_vec_rest() { GEN(g, p, 0); if (g) { if (some()) { sink(g()); } auto const v = g.to_vec(); vec(&v); } }
void g_ret() { MAKE(prom, p, 0); auto g = pp->get_return_object(); while (g) { sink(g()); } ended(true); }
void g_move() { GEN(g, p, 0); if (some() && g) { if (some()) { sink(g()); } } auto h = std::move(g); while (h) { sink(h()); } ended(true); }
void g_pass() { GEN(g, p, 0); if (some() && !g) { return; } keep(std::move(g)); }
void g_assign() { GEN(g, p, 0); GEN(h, q, 3); if (some() && h) { if (some()) { sink(h()); } } if (some() && !g) { return; } h = std::move(g); while (h) { sink(h()); } ended(true); }
void y_value(long a) { prom p; p.yield_value(a); same(p.value_, a); }
void y_rvalue(long a) { bprom p; box b{a}; p.yield_value(std::move(b)); same(p.value_.v, a); }
void y_lvalue(long a) { bprom p; box b{a}; p.yield_value(b); same(p.value_.v, a); same(b.v, a); }
void y_again(long a, long b) { prom p; p.yield_value(a); p.yield_value(b); same(p.value_, b); }
void y_throw() { MAKE(prom, p, 0); pp->unhandled_exception(); holds(&pp->exception_); }
void y_fresh() { MAKE(prom, p, 0); pp->return_void(); }
}
