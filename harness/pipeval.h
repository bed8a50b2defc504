#pragma once
// identity-token values, uninterpreted functions and predicates
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <iterator>
#include <optional>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <vector>
extern "C" {
long pf(int kind, long v) noexcept;
bool pp(int kind, long v) noexcept;
bool peq(long, long) noexcept;
bool plt(long, long) noexcept;       // comparator given by the caller
bool pnlt(long, long) noexcept;      // operator<
void pout(long v) noexcept;
void pget(long v) noexcept;
void pnone() noexcept;
long pgen() noexcept;
long pacc(long acc, long v) noexcept;
}
struct pv {
  pv() : v_{0} {}
  explicit pv(long v) : v_{v} {}
  pv(pv const& o) : v_{o.v_} {}
  pv(pv&& o) noexcept : v_{o.v_} { o.v_ = -1; }
  pv& operator=(pv const& o) { v_ = o.v_; return *this; }
  pv& operator=(pv&& o) noexcept { v_ = o.v_; o.v_ = -1; return *this; }
  friend bool operator==(pv const& a, pv const& b) noexcept { return peq(a.v_, b.v_); }
  friend bool operator!=(pv const& a, pv const& b) noexcept { return !peq(a.v_, b.v_); }
  friend bool operator<(pv const& a, pv const& b) noexcept { return pnlt(a.v_, b.v_); }
  friend bool operator>(pv const& a, pv const& b) noexcept { return pnlt(b.v_, a.v_); }
  long v_;
};
template <int K> struct fn { pv operator()(pv const& x) const noexcept { return pv{pf(K, x.v_)}; } };
template <int K> struct pr { bool operator()(pv const& x) const noexcept { return pp(K, x.v_); } };
struct ple { bool operator()(pv const& a, pv const& b) const noexcept { return plt(a.v_, b.v_); } };
struct out { void operator()(pv const& x) const noexcept { pout(x.v_); } };
struct pc {  // container that does not own its elements
  using value_type = pv;
  using size_type = std::size_t;
  using iterator = pv*;
  using const_iterator = pv const*;
  pv* begin() { return b_; }
  pv* end() { return e_; }
  pv const* begin() const { return b_; }
  pv const* end() const { return e_; }
  std::size_t size() const { return static_cast<std::size_t>(e_ - b_); }
  bool empty() const { return b_ == e_; }
  friend pv* begin(pc& c) { return c.b_; }
  friend pv* end(pc& c) { return c.e_; }
  friend pv const* begin(pc const& c) { return c.b_; }
  friend pv const* end(pc const& c) { return c.e_; }
  pv* b_;
  pv* e_;
};
struct po {  // container that owns three elements
  using value_type = pv;
  using size_type = std::size_t;
  using iterator = pv*;
  using const_iterator = pv const*;
  explicit po(pv const* p) : e_{p[0], p[1], p[2]} {}
  po(po const& o) : e_{o.e_[0], o.e_[1], o.e_[2]} {}
  po(po&& o) : e_{o.e_[0], o.e_[1], o.e_[2]} {}
  ~po() { for (auto& x : e_) { x.v_ = -2; } }
  pv* begin() { return e_; }
  pv* end() { return e_ + 3; }
  pv const* begin() const { return e_; }
  pv const* end() const { return e_ + 3; }
  std::size_t size() const { return 3U; }
  pv e_[3];
};
struct sink {
  using value_type = pv;
  void emplace_back(pv const& x) { pout(x.v_); }
  void push_back(pv const& x) { pout(x.v_); }
  void emplace(pv const& x) { pout(x.v_); }
  void insert(pv const& x) { pout(x.v_); }
  void reserve(std::size_t) {}
};
