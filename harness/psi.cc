#include "opaque.h"
#include "utl/power_set_intersection.h"
struct f2 { void operator()(el const& a, el const& b) const { ev2(1, a, b); } };
extern "C" {
void psi_it(el const* a, el const* ae, el const* b, el const* be) { utl::power_set_intersection(a, ae, b, be, f2{}); }
void psi_it_less(el const* a, el const* ae, el const* b, el const* be) { utl::power_set_intersection(a, ae, b, be, f2{}, lt_t{}); }
void psi_co(el const* a, el const* ae, el const* b, el const* be) { utl::power_set_intersection(rng{a, ae}, rng{b, be}, f2{}); }
void psi_co_less(el const* a, el const* ae, el const* b, el const* be) { utl::power_set_intersection(rng{a, ae}, rng{b, be}, f2{}, lt_t{}); }
}
