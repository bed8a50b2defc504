#pragma once
#include <cstddef>
#include <tuple>
#include <type_traits>
namespace cista {
namespace detail {
template <typename T, typename = void>
struct has_cista_members : std::false_type {};
template <typename T>
struct has_cista_members<T, std::void_t<decltype(std::declval<T&>().cista_members())>> : std::true_type {};
template <typename T>
constexpr bool const has_cista_members_v = has_cista_members<T>::value;
struct any { template <typename T> operator T() const; };
template <typename T, typename... A>
constexpr std::size_t arity() {
  if constexpr (requires { T{A{}..., any{}}; }) { return arity<T, A..., any>(); } else { return sizeof...(A); }
}
}  // namespace detail
template <typename T>
auto to_tuple(T& t) {
  if constexpr (detail::has_cista_members_v<T>) {
    return t.cista_members();
  } else {
    constexpr auto n = detail::arity<std::remove_const_t<T>>();
    static_assert(n <= 8U);
    if constexpr (n == 0U) { return std::tie(); }
    else if constexpr (n == 1U) { auto& [a] = t; return std::tie(a); }
    else if constexpr (n == 2U) { auto& [a, b] = t; return std::tie(a, b); }
    else if constexpr (n == 3U) { auto& [a, b, c] = t; return std::tie(a, b, c); }
    else if constexpr (n == 4U) { auto& [a, b, c, d] = t; return std::tie(a, b, c, d); }
    else if constexpr (n == 5U) { auto& [a, b, c, d, e] = t; return std::tie(a, b, c, d, e); }
    else if constexpr (n == 6U) { auto& [a, b, c, d, e, f] = t; return std::tie(a, b, c, d, e, f); }
    else if constexpr (n == 7U) { auto& [a, b, c, d, e, f, g] = t; return std::tie(a, b, c, d, e, f, g); }
    else { auto& [a, b, c, d, e, f, g, h] = t; return std::tie(a, b, c, d, e, f, g, h); }
  }
}
}  // namespace cista
