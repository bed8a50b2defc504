#include "pipeval.h"
#include <set>
#include "utl/concat.h"
#include "utl/repeat_n.h"
#include "utl/to_set.h"
#include "utl/to_vec.h"
extern "C" {
void cc_insert(void* c, pv* pos, pv const* f, pv const* l) noexcept;
void rn_size(std::size_t n) noexcept;
pv* rn_data() noexcept;
}
struct app {  // growing container
  using value_type = pv;
  using size_type = std::size_t;
  using iterator = pv*;
  using const_iterator = pv const*;
  pv* begin() { return b_; }
  pv* end() { return e_; }
  pv const* begin() const { return b_; }
  pv const* end() const { return e_; }
  friend pv* begin(app& c) { return c.b_; }
  friend pv* end(app& c) { return c.e_; }
  std::size_t size() const { return static_cast<std::size_t>(e_ - b_); }
  void reserve(std::size_t) {}
  template <typename It> void insert(pv* pos, It f, It l) { cc_insert(this, pos, f, l); }
  void push_back(pv const& x) { pout(x.v_); }
  void emplace_back(pv const& x) { pout(x.v_); }
  pv* b_;
  pv* e_;
};
struct rep {
  using value_type = pv;
  using size_type = std::size_t;
  using iterator = pv*;
  using const_iterator = pv const*;
  explicit rep(std::size_t n) : b_{rn_data()}, n_{n} { rn_size(n); }
  rep(std::size_t n, pv const& x) : b_{rn_data()}, n_{n} { rn_size(n); std::fill(b_, b_ + n, x); }
  pv* begin() { return b_; }
  pv* end() { return b_ + n_; }
  friend pv* begin(rep& c) { return c.b_; }
  friend pv* end(rep& c) { return c.b_ + c.n_; }
  std::size_t size() const { return n_; }
  pv& operator[](std::size_t i) { return b_[i]; }
  pv* b_;
  std::size_t n_;
};
extern "C" {
void tv_co(pv* a, pv* ae) { pc c{a, ae}; utl::to_vec(c, fn<1>{}); }
void tv_cst(pv* a, pv* ae) { pc const c{a, ae}; utl::to_vec(c, fn<1>{}); }
void tv_rv(pv* a, pv* ae) { utl::to_vec(pc{a, ae}, fn<1>{}); }
void tv_it(pv* a, pv* ae) { utl::to_vec(a, ae, fn<1>{}); }
void tv_id(pv* a, pv* ae) { pc c{a, ae}; utl::to_vec(c); }
void tv_idc(pv* a, pv* ae) { pc const c{a, ae}; utl::to_vec(c); }
void tt_ret(pv* a, pv* ae) { pc c{a, ae}; utl::transform_to<sink>(c, fn<1>{}); }
void tt_out(pv* a, pv* ae) { pc c{a, ae}; sink o; utl::transform_to(c, o, fn<1>{}); }
void tt_grow(std::vector<pv>* o, pv* a, pv* ae) { pc c{a, ae}; utl::transform_to(c, *o, fn<1>{}); }
void tt_vec(pv* a, pv* ae) { pc c{a, ae}; utl::transform_to<std::vector<pv>>(c, fn<1>{}); }
void tt_own(pv const* a) { po c{a}; utl::transform_to<sink>(c, fn<1>{}); }
void ts_co(pv* a, pv* ae) { pc const c{a, ae}; utl::to_set(c, fn<1>{}); }
void ts_it(pv* a, pv* ae) { utl::to_set(a, ae, fn<1>{}); }
bool cc(pv* b, pv* be, pv* a, pv* ae) { app c{b, be}; pc const d{a, ae}; return &utl::concat(c, d) == &c; }
void rn(pv const* x, std::size_t n) { utl::repeat_n<pv, rep>(*x, n); }
void rn_v(pv const* x, std::size_t n) { utl::repeat_n(*x, n); }
}
