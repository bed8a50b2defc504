#pragma once
// Opaque elements, ranges and operations.  The instantiated library code can
// learn nothing about an element except through these calls, so its behaviour
// for every element type and value is its behaviour here.
#include <cstddef>
#include <cstdint>
#include <iterator>
#include <utility>

struct el {
  el() = delete;
  el(el const&) = delete;
  el& operator=(el const&) = delete;
  long v_;
};

extern "C" {
bool op_lt(el const&, el const&) noexcept;
bool op_eq(el const&, el const&) noexcept;
bool op_nlt(el const&, el const&) noexcept;  // natural order (operator<)
bool op_neq(el const&, el const&) noexcept;  // natural equality (operator==)
bool op_deep_eq(el const&, el const&) noexcept;
bool op_pred(el const&) noexcept;
void ev1(int kind, el const&) noexcept;
void ev2(int kind, el const&, el const&) noexcept;
void evr(int kind, el const*, el const*) noexcept;
void evr2(int kind, el const*, el const*, el const*, el const*) noexcept;
void ev0(int kind) noexcept;
void evi(int kind, long) noexcept;
void evi1(int kind, long, el const&) noexcept;
}

struct lt_t { bool operator()(el const& a, el const& b) const noexcept { return op_lt(a, b); } };
struct eq_t { bool operator()(el const& a, el const& b) const noexcept { return op_eq(a, b); } };
inline bool operator<(el const& a, el const& b) noexcept { return op_nlt(a, b); }
inline bool operator>(el const& a, el const& b) noexcept { return op_nlt(b, a); }
inline bool operator<=(el const& a, el const& b) noexcept { return !op_nlt(b, a); }
inline bool operator>=(el const& a, el const& b) noexcept { return !op_nlt(a, b); }
inline bool operator==(el const& a, el const& b) noexcept { return op_neq(a, b); }
inline bool operator!=(el const& a, el const& b) noexcept { return !op_neq(a, b); }

// non-owning random access container of opaque elements
struct rng {
  using value_type = el;
  using iterator = el const*;
  using const_iterator = el const*;
  using reference = el const&;
  using const_reference = el const&;
  using size_type = std::size_t;
  using difference_type = std::ptrdiff_t;
  el const* begin() const { return b_; }
  el const* end() const { return e_; }
  std::size_t size() const { return static_cast<std::size_t>(e_ - b_); }
  bool empty() const { return b_ == e_; }
  el const& operator[](std::size_t i) const { return b_[i]; }
  friend el const* begin(rng const& r) { return r.b_; }
  friend el const* end(rng const& r) { return r.e_; }
  el const* b_;
  el const* e_;
};

struct mrng {
  using value_type = el;
  using iterator = el*;
  using const_iterator = el const*;
  el* begin() { return b_; }
  el* end() { return e_; }
  el const* begin() const { return b_; }
  el const* end() const { return e_; }
  std::size_t size() const { return static_cast<std::size_t>(e_ - b_); }
  friend el* begin(mrng& r) { return r.b_; }
  friend el* end(mrng& r) { return r.e_; }
  friend el const* begin(mrng const& r) { return r.b_; }
  friend el const* end(mrng const& r) { return r.e_; }
  el* b_;
  el* e_;
};

// movable / assignable opaque element
struct mel {
  mel(mel const& o) : v_{o.v_} {}
  mel(mel&& o) noexcept : v_{o.v_} {}
  mel& operator=(mel const& o) { v_ = o.v_; return *this; }
  mel& operator=(mel&& o) noexcept { v_ = o.v_; return *this; }
  long v_;
};
inline el const& as_el(mel const& m) noexcept { return reinterpret_cast<el const&>(m); }
inline bool operator<(mel const& a, mel const& b) noexcept { return op_nlt(as_el(a), as_el(b)); }
inline bool operator>(mel const& a, mel const& b) noexcept { return op_nlt(as_el(b), as_el(a)); }
inline bool operator==(mel const& a, mel const& b) noexcept { return op_neq(as_el(a), as_el(b)); }
inline bool operator!=(mel const& a, mel const& b) noexcept { return !op_neq(as_el(a), as_el(b)); }
struct mlt_t { bool operator()(mel const& a, mel const& b) const noexcept { return op_lt(as_el(a), as_el(b)); } };
struct meq_t { bool operator()(mel const& a, mel const& b) const noexcept { return op_eq(as_el(a), as_el(b)); } };

// non-owning mutable container of movable elements
struct mcont {
  using value_type = mel;
  using iterator = mel*;
  using const_iterator = mel const*;
  using size_type = std::size_t;
  using difference_type = std::ptrdiff_t;
  mel* begin() { return b_; }
  mel* end() { return e_; }
  mel const* begin() const { return b_; }
  mel const* end() const { return e_; }
  std::size_t size() const { return static_cast<std::size_t>(e_ - b_); }
  friend mel* begin(mcont& r) { return r.b_; }
  friend mel* end(mcont& r) { return r.e_; }
  friend mel const* begin(mcont const& r) { return r.b_; }
  friend mel const* end(mcont const& r) { return r.e_; }
  mel* b_;
  mel* e_;
};

extern "C" void evn(int kind, int n, void const*, void const*, void const*, void const*) noexcept;
// container that owns its elements (inline storage): dangling views are visible
struct own3 {
  using value_type = mel;
  using iterator = mel*;
  using const_iterator = mel const*;
  explicit own3(mel const* p) : e_{p[0], p[1], p[2]} {}
  own3(own3 const& o) : e_{o.e_[0], o.e_[1], o.e_[2]} {}
  own3(own3&& o) : e_{o.e_[0], o.e_[1], o.e_[2]} {}
  mel* begin() { return e_; }
  mel* end() { return e_ + 3; }
  mel const* begin() const { return e_; }
  mel const* end() const { return e_ + 3; }
  std::size_t size() const { return 3U; }
  friend mel* begin(own3& r) { return r.e_; }
  friend mel* end(own3& r) { return r.e_ + 3; }
  friend mel const* begin(own3 const& r) { return r.e_; }
  friend mel const* end(own3 const& r) { return r.e_ + 3; }
  mel e_[3];
};
