#include "opaque.h"
#include "utl/nwise.h"
#include "utl/pairwise.h"
#include <utility>
#include <vector>
using std::get;
template <typename R> void w1(R&& r) { for (auto&& t : r) { evn(1, 1, &get<0>(t), nullptr, nullptr, nullptr); } }
template <typename R> void w2(R&& r) { for (auto&& t : r) { evn(1, 2, &get<0>(t), &get<1>(t), nullptr, nullptr); } }
extern "C" {
void w1_lv(el const* a, el const* ae) { rng r{a, ae}; w1(utl::nwise<1>(r)); }
void w2_lv(el const* a, el const* ae) { rng r{a, ae}; w2(utl::nwise<2>(r)); }
void w2_const(el const* a, el const* ae) { rng const r{a, ae}; w2(utl::nwise<2>(r)); }
void w2_rv(el const* a, el const* ae) { w2(utl::nwise<2>(rng{a, ae})); }
void w3_lv(el const* a, el const* ae) {
  rng r{a, ae};
  for (auto&& t : utl::nwise<3>(r)) { evn(1, 3, &get<0>(t), &get<1>(t), &get<2>(t), nullptr); }
}
void w4_rv(el const* a, el const* ae) {
  for (auto&& t : utl::nwise<4>(rng{a, ae})) { evn(1, 4, &get<0>(t), &get<1>(t), &get<2>(t), &get<3>(t)); }
}
void pw_lv(el const* a, el const* ae) { rng r{a, ae}; w2(utl::pairwise(r)); }
void pw_rv(el const* a, el const* ae) { w2(utl::pairwise(rng{a, ae})); }
void pw_it(el const* a, el const* ae) {
  rng r{a, ae};
  auto e = utl::pairwise_end(r);
  for (auto it = utl::pairwise_begin(r); it != e; ++it) { auto t = *it; evn(1, 2, &get<0>(t), &get<1>(t), nullptr, nullptr); }
}
void w2_eq(el const* a, el const* ae) {
  rng r{a, ae};
  auto v = utl::nwise<2>(r);
  auto e = v.end();
  for (auto it = v.begin(); !(it == e); ++it) { auto t = *it; evn(1, 2, &get<0>(t), &get<1>(t), nullptr, nullptr); }
}
void w2_cst(el const* a, el const* ae) {
  rng r{a, ae};
  auto const v = utl::nwise<2>(r);
  auto const e = v.end();
  for (auto it = v.begin(); it != e; ++it) { auto const c = it; auto t = *c; evn(1, 2, &get<0>(t), &get<1>(t), nullptr, nullptr); }
}
void w2_agree(el const* a, el const* ae) {
  rng r{a, ae};
  auto v = utl::nwise<2>(r);
  auto const b = v.begin();
  auto const e = v.end();
  for (auto it = v.begin(); it != e; ++it) {
    if (it == b) { evi(6, 1); } else { evi(6, 0); }
    if (it != b) { evi(7, 0); } else { evi(7, 1); }
    if (it == e) { evi(8, 0); }
    auto t = *it;
    evn(1, 2, &get<0>(t), &get<1>(t), nullptr, nullptr);
  }
}
void w3_agree(el const* a, el const* ae) {
  auto const v = utl::nwise<3>(rng{a, ae});
  auto const b = v.begin();
  auto it = v.begin();
  for (; !(it == v.end()); ++it) {
    if (it == b) { evi(6, 1); } else { evi(6, 0); }
    if (it != b) { evi(7, 0); } else { evi(7, 1); }
    if (!(it != v.end())) { evi(8, 0); }
    auto t = *it;
    evn(1, 3, &get<0>(t), &get<1>(t), &get<2>(t), nullptr);
  }
}
void sz1_rv(el const* a, el const* ae) { evi(2, static_cast<long>(utl::nwise<1>(rng{a, ae}).size())); }
void sz3_rv(el const* a, el const* ae) { evi(2, static_cast<long>(utl::nwise<3>(rng{a, ae}).size())); }
void sz2_pw(el const* a, el const* ae) { rng const r{a, ae}; evi(2, static_cast<long>(utl::pairwise(r).size())); }
void sz2_lv(el const* a, el const* ae) { rng r{a, ae}; evi(2, static_cast<long>(utl::nwise<2>(r).size())); }
void sz3_lv(el const* a, el const* ae) { rng r{a, ae}; evi(2, static_cast<long>(utl::nwise<3>(r).size())); }
void sz2_rv(el const* a, el const* ae) { evi(2, static_cast<long>(utl::nwise<2>(rng{a, ae}).size())); }
// the view owns a temporary container
void own_pw(mel const* a) { for (auto&& t : utl::pairwise(own3{a})) { evn(3, 2, &get<0>(t), &get<1>(t), nullptr, nullptr); } }
void own_pw_auto(mel const* a) { auto v = utl::nwise<2>(own3{a}); for (auto&& t : v) { evn(3, 2, &get<0>(t), &get<1>(t), nullptr, nullptr); } }
}
