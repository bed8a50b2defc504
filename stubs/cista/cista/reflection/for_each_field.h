#pragma once
// Stand-in for cista's reflection (not installed here): fields are listed by
// a member function `cista_members()` returning std::tie(...).
#include <tuple>
#include <type_traits>
#include <utility>
#include "cista/reflection/to_tuple.h"
namespace cista {
template <typename T, typename Fn>
void for_each_field(T& t, Fn&& fn) {
  std::apply([&](auto&... f) { (fn(f), ...); }, to_tuple(t));
}
template <typename T, typename Fn>
void for_each_field(Fn&& fn) {
  T t{};
  for_each_field<T>(t, std::forward<Fn>(fn));
}
}  // namespace cista
