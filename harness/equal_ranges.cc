#include "opaque.h"
#include <utility>
#include "utl/equal_ranges.h"
#include "utl/equal_ranges_linear.h"
struct f1 {
  void operator()(el const* a, el const* e) const { evr(1, a, e); }
  void operator()(mel const* a, mel const* e) const { evr(1, reinterpret_cast<el const*>(a), reinterpret_cast<el const*>(e)); }
};
extern "C" {
void lin_it(el const* a, el const* ae) { utl::equal_ranges_linear(a, ae, f1{}); }
void lin_it_eq(el const* a, el const* ae) { utl::equal_ranges_linear(a, ae, eq_t{}, f1{}); }
void lin_co(el const* a, el const* ae) { utl::equal_ranges_linear(rng{a, ae}, f1{}); }
void lin_co_eq(el const* a, el const* ae) { utl::equal_ranges_linear(rng{a, ae}, eq_t{}, f1{}); }
void srt(mel* a, mel* ae) { mcont c{a, ae}; utl::equal_ranges(c, f1{}); }
void srt_cmp(mel* a, mel* ae) { mcont c{a, ae}; utl::equal_ranges(c, mlt_t{}, f1{}); }
}
