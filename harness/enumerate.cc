#include "opaque.h"
#include "utl/enumerate.h"
#define A el *a, el *ae
struct prng {
  using value_type = el*;
  using iterator = el* const*;
  el* const* begin() const { return b_; }
  el* const* end() const { return e_; }
  el* const* b_;
  el* const* e_;
};
// positions that can only be stepped (list) and a list that knows its size
struct bit {
  using value_type = el;
  using reference = el&;
  using pointer = el*;
  using difference_type = std::ptrdiff_t;
  using iterator_category = std::bidirectional_iterator_tag;
  el& operator*() const { return *p_; }
  el* operator->() const { return p_; }
  bit& operator++() { ++p_; return *this; }
  bit& operator--() { --p_; return *this; }
  bit operator++(int) { auto x = *this; ++p_; return x; }
  bit operator--(int) { auto x = *this; --p_; return x; }
  bool operator==(bit const& o) const { return p_ == o.p_; }
  bool operator!=(bit const& o) const { return p_ != o.p_; }
  el* p_;
};
struct brng {
  using value_type = el;
  using iterator = bit;
  bit begin() const { return {b_}; }
  bit end() const { return {e_}; }
  el* b_;
  el* e_;
};
struct bszrng : brng {
  std::size_t size() const { return static_cast<std::size_t>(e_ - b_); }
};
template <typename R> void go(R&& r) { for (auto&& [i, x] : r) { evi1(1, static_cast<long>(i), x); } }
extern "C" {
void en_lv(A) { mrng r{a, ae}; go(utl::enumerate(r)); }
void en_const(A) { mrng const r{a, ae}; go(utl::enumerate(r)); }
void en_rv(A) { go(utl::enumerate(mrng{a, ae})); }
void en_ptr(el* const* a, el* const* ae) { for (auto&& [i, x] : utl::enumerate(prng{a, ae})) { evi1(1, static_cast<long>(i), *x); } }
void en_plus(A, long n, long k) {
  mrng r{a, ae};
  auto e = utl::enumerate(r);
  auto it = e.begin();
  it += k;
  it += n - k;
  { auto&& [i, x] = *it; evi1(2, static_cast<long>(i), x); }
  it -= k;
  { auto&& [i, x] = *it; evi1(3, static_cast<long>(i), x); }
  it -= -k;
  { auto&& [i, x] = *it; evi1(2, static_cast<long>(i), x); }
  it += -k;
  { auto&& [i, x] = *it; evi1(3, static_cast<long>(i), x); }
}
void en_back(A, long n) {
  mrng r{a, ae};
  auto e = utl::enumerate(r);
  auto it = e.begin();
  it += n;
  while (it != e.begin()) { --it; auto&& [i, x] = *it; evi1(4, static_cast<long>(i), x); }
}
void en_size(A) {
  mrng r{a, ae};
  auto e = utl::enumerate(r);
  evi(5, std::distance(e.begin(), e.end()));
}
void en_dist(A, long n) {
  mrng r{a, ae};
  auto e = utl::enumerate(r);
  auto it = e.begin();
  it += n;
  evi(6, it - e.begin());
}
void en_list(A) { brng r{a, ae}; go(utl::enumerate(r)); }
void en_list_rv(A) { go(utl::enumerate(bszrng{{a, ae}})); }
#define BACK(name, r0) void name(A) { \
  auto r = r0; \
  auto e = utl::enumerate(r); \
  auto it = e.end(); \
  while (it != e.begin()) { --it; auto&& [i, x] = *it; evi1(8, static_cast<long>(i), x); } \
}
BACK(en_back_end, (mrng{a, ae}))
BACK(en_back_list, (brng{a, ae}))
BACK(en_back_slist, (bszrng{{a, ae}}))
void en_diff_end(A) { mrng r{a, ae}; auto e = utl::enumerate(r); evi(5, e.end() - e.begin()); }
void en_diff_list(A) { brng r{a, ae}; auto e = utl::enumerate(r); evi(5, e.end() - e.begin()); }
void en_diff_slist(A) { auto e = utl::enumerate(bszrng{{a, ae}}); evi(5, e.end() - e.begin()); }
void en_size_list(A) { brng r{a, ae}; auto e = utl::enumerate(r); evi(5, std::distance(e.begin(), e.end())); }
void en_jump_end(A, long n) { mrng r{a, ae}; auto e = utl::enumerate(r); auto it = e.end(); it -= 1; it -= (ae - a) - 1 - n; auto&& [i, x] = *it; evi1(2, static_cast<long>(i), x); }
void en_own(mel const* a) { for (auto&& [i, x] : utl::enumerate(own3{a})) { evi1(1, static_cast<long>(i), as_el(x)); } }
void en_own_auto(mel const* a) { auto e = utl::enumerate(own3{a}); for (auto&& [i, x] : e) { evi1(1, static_cast<long>(i), as_el(x)); } }
}
