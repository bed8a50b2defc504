#include "pipeval.h"
#include <set>
#include "utl/erase.h"
#include "utl/erase_duplicates.h"
#include "utl/erase_if.h"
struct ec;
extern "C" {
pv* ec_erase(ec*, pv* f, pv* l) noexcept;   // returns the new end
void ec_clear(ec*) noexcept;
}
struct ec {  // container of opaque values with erase
  using value_type = pv;
  using size_type = std::size_t;
  using difference_type = std::ptrdiff_t;
  using iterator = pv*;
  using const_iterator = pv const*;
  using reference = pv&;
  pv* begin() { return b_; }
  pv* end() { return e_; }
  pv const* begin() const { return b_; }
  pv const* end() const { return e_; }
  std::size_t size() const { return static_cast<std::size_t>(e_ - b_); }
  bool empty() const { return b_ == e_; }
  pv& operator[](std::size_t i) { return b_[i]; }
  pv* erase(pv* f, pv* l) { e_ = ec_erase(this, f, l); return f; }
  pv* erase(pv* f) { e_ = ec_erase(this, f, f + 1); return f; }
  void pop_back() { e_ = ec_erase(this, e_ - 1, e_); }
  void resize(std::size_t n) { e_ = ec_erase(this, b_ + n, e_); }
  friend pv* begin(ec& c) { return c.b_; }
  friend pv* end(ec& c) { return c.e_; }
  friend pv const* begin(ec const& c) { return c.b_; }
  friend pv const* end(ec const& c) { return c.e_; }
  pv* b_;
  pv* e_;
};
extern "C" bool peqc(long, long) noexcept;
struct eqp { bool operator()(pv const& a, pv const& b) const noexcept { return peqc(a.v_, b.v_); } };
extern "C" {
void er(pv* a, pv* ae, pv const* x) { ec c{a, ae}; utl::erase(c, pv{*x}); }
void er_rv(pv* a, pv* ae, pv const* x) { utl::erase(ec{a, ae}, pv{*x}); }
void ei(pv* a, pv* ae) { ec c{a, ae}; utl::erase_if(c, pr<1>{}); }
void ei_lv(pv* a, pv* ae) { ec c{a, ae}; pr<1> p; utl::erase_if(c, p); }
void ed(pv* a, pv* ae) { ec c{a, ae}; utl::erase_duplicates(c); }
void ed_cmp(pv* a, pv* ae) { ec c{a, ae}; utl::erase_duplicates(c, ple{}, eqp{}); }
void ed_sub(pv* a, pv* ae, std::size_t i, std::size_t j) { ec c{a, ae}; utl::erase_duplicates(c, a + i, a + j, ple{}, eqp{}); }
void es(std::set<pv>* s, pv const* x) { utl::erase(*s, pv{*x}); }
void es_rv(std::set<pv>* s, pv const* x) { utl::erase(std::move(*s), pv{*x}); }
}
