#include <cmath>
#include <cstddef>
#include <iostream>
#include <string>
#include "utl/progress_tracker.h"
#include "utl/../../src/progress_tracker.cc"
extern "C" {
void notified(void const* t) noexcept;   // the callback runs
void world(void* t, void* mtx, void* cb, void* status, void* show, void* lo, void* hi, void* mod, void* inhigh, void* in, void* out) noexcept;
void gworld(void* g, void* mtx, void* silent, void* height, void* trackers, void* active) noexcept;
void result(void const* sp) noexcept;    // a tracker pointer is returned
}
#define TRACKER(t) \
  utl::progress_tracker t{[](utl::progress_tracker const& x) { notified(&x); }}; \
  world(&t, &t.mutex_, &t.callback_, &t.status_, &t.show_progress_, &t.out_low_, &t.out_high_, &t.out_mod_, &t.in_high_, &t.in_, &t.out_)
#define GLOBAL(g) \
  auto& g = utl::get_global_progress_trackers(); \
  gworld(&g, &g.mutex_, &g.silent_, &g.last_print_height_, &g.trackers_, &g.active_tracker_)
extern "C" {
void pt_update(std::size_t n) { TRACKER(t); t.update(n); }
void pt_inc(std::size_t n) { TRACKER(t); t.increment(n); }
void pt_inc1() { TRACKER(t); t.increment(); }
void pt_mono(std::size_t n) { TRACKER(t); t.update_monotonic(n); }
void pt_update_fn(std::size_t n) { TRACKER(t); auto f = t.update_fn(); f(n); }
void pt_inc_fn() { TRACKER(t); auto f = t.increment_fn(); f(); }
void pt_status(std::string const& st) { TRACKER(t); t.status(st); }
void pt_show(bool b) { TRACKER(t); t.show_progress(b); }
void pt_reset() { TRACKER(t); t.reset_bounds(); }
void pt_bounds(float a, float b) { TRACKER(t); t.out_bounds(a, b); }
void pt_mod(float m) { TRACKER(t); t.out_mod(m); }
void pt_high(std::size_t n) { TRACKER(t); t.in_high(n); }
void pt_chain(std::string const& st, float a, float b, std::size_t n) { TRACKER(t); t.status(st).out_bounds(a, b).in_high(n); }
void pt_chain2(bool b, float m) { TRACKER(t); t.reset_bounds().out_mod(m).show_progress(b); }
void pt_chain3(std::string const& st, bool b, std::size_t n) { TRACKER(t); t.in_high(n).show_progress(b).status(st); }
void pt_chain4(float a, float b, float m) { TRACKER(t); t.out_mod(m).out_bounds(a, b).reset_bounds(); }
void pt_local(std::string const& st, std::size_t n) {
  TRACKER(t);
  auto u = t.status(st);
  u.in_high(n);
}
void g_get(std::string const& n) { GLOBAL(g); auto const p = g.get_tracker(n); result(&p); }
void g_active() { GLOBAL(g); auto const p = utl::get_active_progress_tracker(); result(&p); }
void g_active_or(std::string const& n) { GLOBAL(g); auto const p = utl::get_active_progress_tracker_or_activate(n); result(&p); }
void g_activate(std::string const& n) { GLOBAL(g); auto const p = utl::activate_progress_tracker(n); result(&p); }
void g_activate_ptr(utl::progress_tracker_ptr const& q) { GLOBAL(g); auto const p = utl::activate_progress_tracker(q); result(&p); }
void g_print() { GLOBAL(g); g.print(); }
void g_clear() { GLOBAL(g); g.clear(); }
void g_bars(bool silent) { GLOBAL(g); utl::global_progress_bars b{silent}; }
}
