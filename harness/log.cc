// Log statements, time stamps and timers; the stream, strings and clocks stay calls.
#include <ctime>
#include <iostream>
#include <string>
#include <string_view>
#include "utl/logging.h"
#include "utl/timer.h"
#include "utl/timing.h"
#include "utl/../../src/timer.cc"
extern "C" {
void work();                                   // may throw
void value(long n, unsigned unit) noexcept;    // a time span is handed out
void given(std::string const& s) noexcept;     // a name given to a timer
}
struct loud { int v; };
extern "C" std::ostream& put_loud(std::ostream&, int);  // may throw
inline std::ostream& operator<<(std::ostream& o, loud const& l) { return put_loud(o, l.v); }
extern "C" {
#line 101
void l_emrg() { uLOG(utl::emrg) << "m"; }
void l_alrt() { uLOG(utl::alrt) << "m"; }
void l_crit() { uLOG(utl::crit) << "m"; }
void l_err() { uLOG(utl::err) << "m"; }
void l_warn() { uLOG(utl::warn) << "m"; }
void l_notice() { uLOG(utl::notice) << "m"; }
void l_info() { uLOG(utl::info) << "m"; }
void l_debug() { uLOG(utl::debug) << "m"; }
void l_parts(std::string const& a, int b) { uLOG(utl::info) << a << " is " << b << '!'; }
void l_lvalue(char const* p) { auto x = p; uLOG(utl::warn) << x << x; }
void l_two() { uLOG(utl::info) << "m"; uLOG(utl::err) << "n"; }
void l_empty() { uLOG(utl::debug); }
void l_throw(int v) { uLOG(utl::info) << "a" << loud{v} << "b"; }
void l_bool(bool b) { if (b) uLOG(utl::info) << "m"; else uLOG(utl::warn) << "n"; }
void t_scoped(std::string const& n) { utl::scoped_timer t{n}; work(); }
void t_scoped_print(std::string const& n, std::string_view m) { utl::scoped_timer t{n}; work(); t.print(m); work(); t.print(m); }
void t_manual(std::string const& n) { utl::manual_timer t{n}; work(); t.stop_and_print(); }
void t_manual_print(std::string const& n, std::string_view m) { utl::manual_timer t{n}; work(); t.print(m); work(); t.stop_and_print(); }
void t_manual_twice(std::string const& n) { utl::manual_timer t{n}; work(); t.stop_and_print(); work(); t.stop_and_print(); }
void t_manual_silent(std::string const& n) { utl::manual_timer t{n}; work(); }
void m_ms() { UTL_START_TIMING(a); work(); UTL_STOP_TIMING(a); value(UTL_TIMING_MS(a), 1000000U); }
void m_us() { UTL_START_TIMING(a); work(); UTL_STOP_TIMING(a); value(UTL_TIMING_US(a), 1000U); }
void m_get_ms() { UTL_START_TIMING(a); work(); value(UTL_GET_TIMING_MS(a), 1000000U); }
void m_get_us() { UTL_START_TIMING(a); work(); value(UTL_GET_TIMING_US(a), 1000U); }
void m_two() { UTL_START_TIMING(a); work(); UTL_START_TIMING(b); work(); UTL_STOP_TIMING(a); work(); UTL_STOP_TIMING(b); value(UTL_TIMING_US(a), 1000U); value(UTL_TIMING_US(b), 1001U); }
void d_time(std::time_t t) { auto const s = utl::time(t); given(s); }
void d_now() { auto const s = utl::time(); given(s); }
}
