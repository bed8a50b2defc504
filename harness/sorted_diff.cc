#include "opaque.h"
#include "utl/sorted_diff.h"

struct cb {
  void operator()(utl::op o, el const& e) const { ev1(o == utl::op::kAdd ? 1 : (o == utl::op::kDel ? 2 : 3), e); }
  void operator()(el const& a, el const& b) const { ev2(4, a, b); }
};
struct deep {
  bool operator()(el const& a, el const& b) const { return op_deep_eq(a, b); }
};

extern "C" void h_iters(el const* a, el const* ae, el const* b, el const* be) {
  utl::sorted_diff(a, ae, b, be, lt_t{}, deep{}, cb{});
}
extern "C" void h_coll(el const* a, el const* ae, el const* b, el const* be) {
  utl::sorted_diff(rng{a, ae}, rng{b, be}, lt_t{}, deep{}, cb{});
}
