#include "pipeval.h"
#include <numeric>
#include <ranges>
#include <tuple>
extern "C" {
unsigned* sp_begin(void const* b, std::size_t n) noexcept;   // std::sort gets [b, b + n)
unsigned sp_pick() noexcept;                                 // a value of the range
void sp_less(unsigned x, unsigned y, bool r) noexcept;       // what the comparator answers
void sp_end(void const* b) noexcept;
pv* sb_clone(pv const* b, std::size_t n) noexcept;           // a container is copied
void sb_out(int k, pv const* b, std::size_t n) noexcept;     // k-th container of the result
}
namespace std {
template <typename It, typename Cmp> void sort_probe(It a, It b, Cmp c) {
  auto const n = static_cast<std::size_t>(b - a);
  auto const* p = n == 0U ? nullptr : &*a;
  sp_begin(p, n);
  if (n != 0U) {
    unsigned const x = sp_pick(), y = sp_pick();
    sp_less(x, y, c(x, y));
  }
  sp_end(p);
}
template <typename It> void sort_probe(It a, It b) { sort_probe(a, b, [](auto const& x, auto const& y) { return x < y; }); }
namespace ranges {
template <typename R, typename Cmp> void sort_probe(R&& r, Cmp c) { std::sort_probe(std::begin(r), std::end(r), c); }
}
}
#define sort sort_probe
#define stable_sort sort_probe
#include "utl/sort_by.h"
#undef sort
#undef stable_sort
struct cv {  // container of values
  using value_type = pv;
  using size_type = std::size_t;
  cv(pv* b, pv* e) : b_{b}, n_{static_cast<std::size_t>(e - b)} {}
  cv(cv const& o) : b_{sb_clone(o.b_, o.n_)}, n_{o.n_} {}
  cv(cv&& o) noexcept : b_{o.b_}, n_{o.n_} { o.n_ = 0U; }
  cv& operator=(cv const& o) { b_ = sb_clone(o.b_, o.n_); n_ = o.n_; return *this; }
  cv& operator=(cv&& o) noexcept { b_ = o.b_; n_ = o.n_; o.n_ = 0U; return *this; }
  pv& operator[](std::size_t i) { return b_[i]; }
  pv const& operator[](std::size_t i) const { return b_[i]; }
  pv& at(std::size_t i) { return b_[i]; }
  pv const& at(std::size_t i) const { return b_[i]; }
  std::size_t size() const { return n_; }
  bool empty() const { return n_ == 0U; }
  pv* begin() { return b_; }
  pv* end() { return b_ + n_; }
  pv const* begin() const { return b_; }
  pv const* end() const { return b_ + n_; }
  pv* b_;
  std::size_t n_;
};
inline void show(int k, cv const& c) { sb_out(k, c.b_, c.n_); }
extern "C" {
void sb1(pv* a, pv* ae) {
  cv o{a, ae};
  auto r = utl::sort_by(o);
  show(0, std::get<0>(r));
}
void sb2(pv* a, pv* ae, pv* b, pv* be) {
  cv o{a, ae}, x{b, be};
  auto r = utl::sort_by(o, x);
  show(0, std::get<0>(r));
  show(1, std::get<1>(r));
}
void sb3(pv* a, pv* ae, pv* b, pv* be, pv* c, pv* ce) {
  cv o{a, ae}, x{b, be}, y{c, ce};
  auto r = utl::sort_by(o, x, y);
  show(0, std::get<0>(r));
  show(1, std::get<1>(r));
  show(2, std::get<2>(r));
}
void sb_const(pv* a, pv* ae, pv* b, pv* be) {
  cv const o{a, ae}, x{b, be};
  auto r = utl::sort_by(o, x);
  show(0, std::get<0>(r));
  show(1, std::get<1>(r));
}
void sb_rv(pv* a, pv* ae, pv* b, pv* be) {
  auto r = utl::sort_by(cv{a, ae}, cv{b, be});
  show(0, std::get<0>(r));
  show(1, std::get<1>(r));
}
}
