#pragma once
// Stand-in for cista's string (not installed here): the interface utl uses.
#include <cstring>
#include <string>
#include <string_view>
namespace cista::raw {
struct generic_string {
  generic_string() = default;
  void set_non_owning(char const* s, unsigned n) { p_ = s; n_ = n; }
  char const* data() const { return p_; }
  unsigned size() const { return n_; }
  char const& operator[](std::size_t i) const { return p_[i]; }
  operator std::string_view() const { return {p_, n_}; }
  std::string_view view() const { return {p_, n_}; }
  generic_string& erase(unsigned at, unsigned n) { own_ = std::string{view()}.erase(at, n); p_ = own_.data(); n_ = static_cast<unsigned>(own_.size()); return *this; }
  std::string str() const { return std::string{view()}; }
  char const* p_{nullptr};
  unsigned n_{0};
  std::string own_;
};
using string = generic_string;
}  // namespace cista::raw
