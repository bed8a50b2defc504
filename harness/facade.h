#pragma once
// Iterators completed by iterator_facade: positions are plain numbers, so that every operator's effect on them is known.
#include "utl/iterator_facade.h"
struct item { long x, y; };
extern "C" {
item& cell(long pos) noexcept;        // the element at a position
void where(item const*) noexcept;     // element an operation refers to
void out(long k, long v) noexcept;    // k-th result
void yes() noexcept;
void no() noexcept;
void step(long n) noexcept;           // advance(n) is asked for
bool over(long pos) noexcept;         // is this position the end
}
namespace utl_h {
using utl::iterator_facade;
struct ra : iterator_facade<ra> {
  explicit ra(long p) : pos{p} {}
  item& dereference() const noexcept { return cell(pos); }
  void advance(std::ptrdiff_t n) noexcept { pos += n; }
  std::ptrdiff_t distance_to(ra const& o) const noexcept { return o.pos - pos; }
  long pos;
};
struct ri : iterator_facade<ri> {  // narrower distances
  explicit ri(int p) : pos{p} {}
  item& dereference() const noexcept { return cell(pos); }
  void advance(int n) noexcept { pos += n; }
  int distance_to(ri const& o) const noexcept { return o.pos - pos; }
  int pos;
};
struct fw : iterator_facade<fw> {
  explicit fw(long p) : pos{p} {}
  item& dereference() const noexcept { return cell(pos); }
  void increment() noexcept { ++pos; }
  bool equal_to(fw const& o) const noexcept { return pos == o.pos; }
  long pos;
};
struct va : iterator_facade<va> {  // elements made on the fly
  explicit va(long p) : pos{p} {}
  item dereference() const noexcept { return item{pos, pos + 1}; }
  void increment() noexcept { ++pos; }
  bool equal_to(va const& o) const noexcept { return pos == o.pos; }
  long pos;
};
struct bd : iterator_facade<bd> {
  explicit bd(long p) : pos{p} {}
  item& dereference() const noexcept { return cell(pos); }
  void increment() noexcept { ++pos; }
  void decrement() noexcept { --pos; }
  bool equal_to(bd const& o) const noexcept { return pos == o.pos; }
  long pos;
};
struct ad : iterator_facade<ad> {  // advance only: steps of one in either direction
  explicit ad(long p) : pos{p} {}
  item& dereference() const noexcept { return cell(pos); }
  void advance(std::ptrdiff_t n) noexcept { step(n); pos += n; }
  bool equal_to(ad const& o) const noexcept { return pos == o.pos; }
  long pos;
};
struct all : iterator_facade<all> {  // everything is provided; advance is not asked for a single step
  explicit all(long p) : pos{p} {}
  item& dereference() const noexcept { return cell(pos); }
  void increment() noexcept { ++pos; }
  void decrement() noexcept { --pos; }
  void advance(std::ptrdiff_t n) noexcept { step(n); pos += n; }
  bool equal_to(all const& o) const noexcept { return pos == o.pos; }
  std::ptrdiff_t distance_to(all const& o) const noexcept { return o.pos - pos; }
  long pos;
};
struct sp : iterator_facade<sp> {
  static constexpr bool single_pass_iterator = true;
  explicit sp(long p) : pos{p} {}
  item& dereference() const noexcept { return cell(pos); }
  void increment() noexcept { ++pos; }
  bool equal_to(sp const& o) const noexcept { return pos == o.pos; }
  long pos;
};
struct mp : iterator_facade<mp> {  // says that it is not single-pass
  static constexpr bool single_pass_iterator = false;
  explicit mp(long p) : pos{p} {}
  item& dereference() const noexcept { return cell(pos); }
  void increment() noexcept { ++pos; }
  bool equal_to(mp const& o) const noexcept { return pos == o.pos; }
  long pos;
};
struct sa : iterator_facade<sa> {  // single-pass, moved by advance
  static constexpr bool single_pass_iterator = true;
  explicit sa(long p) : pos{p} {}
  item& dereference() const noexcept { return cell(pos); }
  void advance(std::ptrdiff_t n) noexcept { step(n); pos += n; }
  bool equal_to(sa const& o) const noexcept { return pos == o.pos; }
  long pos;
};
struct done {};
struct se : iterator_facade<se> {
  using sentinel_type = done;
  se() = default;
  explicit se(long p) : pos{p} {}
  item& dereference() const noexcept { return cell(pos); }
  void increment() noexcept { ++pos; }
  bool at_end() const noexcept { return over(pos); }
  long pos;
};
struct sb : iterator_facade<sb> {  // a sentinel and iterators to compare with, and the way to go
  using sentinel_type = done;
  explicit sb(long p) : pos{p} {}
  item& dereference() const noexcept { return cell(pos); }
  void advance(std::ptrdiff_t n) noexcept { pos += n; }
  std::ptrdiff_t distance_to(sb const& o) const noexcept { return o.pos - pos; }
  std::ptrdiff_t distance_to(done) const noexcept { return 100 - pos; }
  bool at_end() const noexcept { return over(pos); }
  long pos;
};
// an iterator around another one
struct in : iterator_facade<in> {
  in() = default;
  explicit in(long p) : pos{p} {}
  item& dereference() const noexcept { return cell(pos); }
  void advance(std::ptrdiff_t n) noexcept { pos += n; }
  std::ptrdiff_t distance_to(in const& o) const noexcept { return o.pos - pos; }
  long pos;
};
struct il : iterator_facade<il> {
  il() = default;
  explicit il(long p) : pos{p} {}
  item& dereference() const noexcept { return cell(pos); }
  void increment() noexcept { ++pos; }
  void decrement() noexcept { --pos; }
  bool equal_to(il const& o) const noexcept { return pos == o.pos; }
  long pos;
};
template <typename I>
struct wr : utl::iterator_wrapper_facade<wr<I>, I> {
  explicit wr(I i) : utl::iterator_wrapper_facade<wr<I>, I>{i} {}
  item& dereference() const noexcept { return *this->wrapped_iterator; }
  I const& inner() const noexcept { return this->wrapped_iterator; }
};
using win = wr<in>;
using wil = wr<il>;
}  // namespace utl_h
using namespace utl_h;
