#include "opaque.h"
#include "utl/join.h"

struct fm { void operator()(el const* a, el const* ae, el const* b, el const* be) const { evr2(1, a, ae, b, be); } };
struct fa { void operator()(el const* a, el const* ae) const { evr(2, a, ae); } };
struct fb { void operator()(el const* a, el const* ae) const { evr(3, a, ae); } };
struct okey { el const* p; bool operator<(okey const& o) const noexcept { return op_lt(*p, *o.p); } };
struct keyfn { okey key(el const& e) const { return {&e}; } };
#define ARGS el const *a, el const *ae, el const *b, el const *be
extern "C" {
void inner_it_less(ARGS) { utl::inner_join(a, ae, b, be, lt_t{}, fm{}); }
void inner_co_less(ARGS) { utl::inner_join(rng{a, ae}, rng{b, be}, lt_t{}, fm{}); }
void inner_it(ARGS) { utl::inner_join(a, ae, b, be, fm{}); }
void inner_co(ARGS) { utl::inner_join(rng{a, ae}, rng{b, be}, fm{}); }
void left_it_less(ARGS) { utl::left_join(a, ae, b, be, lt_t{}, fm{}, fa{}); }
void left_co_less(ARGS) { utl::left_join(rng{a, ae}, rng{b, be}, lt_t{}, fm{}, fa{}); }
void left_it(ARGS) { utl::left_join(a, ae, b, be, fm{}, fa{}); }
void left_co(ARGS) { utl::left_join(rng{a, ae}, rng{b, be}, fm{}, fa{}); }
void full_it_less(ARGS) { utl::full_join(a, ae, b, be, lt_t{}, fm{}, fa{}, fb{}); }
void full_co_less(ARGS) { utl::full_join(rng{a, ae}, rng{b, be}, lt_t{}, fm{}, fa{}, fb{}); }
void full_it(ARGS) { utl::full_join(a, ae, b, be, fm{}, fa{}, fb{}); }
void full_co(ARGS) { utl::full_join(rng{a, ae}, rng{b, be}, fm{}, fa{}, fb{}); }
void full_key_less(ARGS) { utl::full_join(a, ae, b, be, utl::join_less<keyfn>{}, fm{}, fa{}, fb{}); }
}
