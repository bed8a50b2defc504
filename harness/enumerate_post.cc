#include "opaque.h"
#include "utl/enumerate.h"
extern "C" {
void en_post(el* a, el* ae) {
  mrng r{a, ae};
  auto e = utl::enumerate(r);
  auto it = e.begin();
  while (it != e.end()) { auto const old = it++; auto&& [i, x] = *old; evi1(1, static_cast<long>(i), x); }
}
void en_postdec(el* a, el* ae, long n) {
  mrng r{a, ae};
  auto e = utl::enumerate(r);
  auto it = e.begin();
  it += n;
  auto const old = it--;
  { auto&& [i, x] = *old; evi1(2, static_cast<long>(i), x); }
  { auto&& [i, x] = *it; evi1(7, static_cast<long>(i), x); }
}
}
