#include "opaque.h"
#include <concepts>
#include <algorithm>
#include <type_traits>
#include "utl/is_uniform.h"
struct val { el const* p; };
inline bool operator==(val a, val b) noexcept { return op_eq(*a.p, *b.p); }
inline bool operator!=(val a, val b) noexcept { return !op_eq(*a.p, *b.p); }
struct proj {
  val operator()(mel const& e) const { return {&as_el(e)}; }
  val operator()(el const& e) const { return {&e}; }
};
extern "C" {
bool un_co(mel* a, mel* ae) { mcont c{a, ae}; return utl::is_uniform(c); }
bool un_const(el* a, el* ae) { rng const c{a, ae}; return utl::is_uniform(c); }
bool un_it(mel* a, mel* ae) { return utl::is_uniform(a, ae); }
bool un_cit(el const* a, el const* ae) { return utl::is_uniform(a, ae); }
bool un_it_fn(mel* a, mel* ae) { return utl::is_uniform(a, ae, proj{}); }
bool un_co_fn(el const* a, el const* ae) { rng const c{a, ae}; return utl::is_uniform(c, proj{}); }
}
