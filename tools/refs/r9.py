"""refactorings: init_from (M02), sort_by (A15)"""
I = "include/utl/init_from.h"
S = "include/utl/sort_by.h"
SORT = """    std::sort(begin(permutation), end(permutation),
            [&](auto&& a, auto&& b) { return order[a] < order[b]; });"""[4:]
CHECK = """  if (!(c<std::tuple_element_t<I, Tuple>>(s) && ...)) {
    return std::nullopt;
  }
  return T{m<std::decay_t<std::tuple_element_t<I, Tuple>>>(s)...};"""
FILL = """  permutation.resize(order.size());
  for (auto i = 0U; i != permutation.size(); ++i) {
    permutation[i] = i;
  }
"""
APPLY = """  for (auto i = 0U; i != permutation.size(); ++i) {
    vec[i] = orig[permutation[i]];
  }
"""
REFS = [
 dict(id="in-ok-flag", checks="m02", file=I, edits=[(CHECK, """  auto const complete = (c<std::tuple_element_t<I, Tuple>>(s) && ...);
  if (complete) {
    return std::optional<T>{T{m<std::decay_t<std::tuple_element_t<I, Tuple>>>(s)...}};
  }
  return std::nullopt;""")]),
 dict(id="in-and-no-short", checks="m02", file=I, edits=[("(c<std::tuple_element_t<I, Tuple>>(s) && ...)", "(true & ... & c<std::tuple_element_t<I, Tuple>>(s))")]),
 dict(id="in-fold-or", checks="m02", file=I, edits=[("if (!(c<std::tuple_element_t<I, Tuple>>(s) && ...)) {", "if ((!c<std::tuple_element_t<I, Tuple>>(s) || ...)) {")]),
 dict(id="in-null-if", checks="m02", file=I, edits=[("    return std::get<I>(s) == nullptr ? nullptr : &*std::get<I>(s);", "    auto& p = std::get<I>(s);\n    if (p == nullptr) {\n      return nullptr;\n    }\n    return std::addressof(*p);")]),
 dict(id="in-bool-test", checks="m02", file=I, edits=[("    return std::get<I>(s) != nullptr;", "    return static_cast<bool>(std::get<I>(s));")]),
 dict(id="in-requires", checks="m02", file=I, edits=[("concept Derefable = requires(T t) { *t; };", "concept Derefable = requires(T& t) { *t; } || requires(T t) { *t; };")]),
 dict(id="in-tuple-local", checks="m02", file=I, edits=[("  return detail::init_from<T>(detail::to_tuple(s),\n", "  auto members = detail::to_tuple(s);\n  return detail::init_from<T>(members,\n")]),
 dict(id="in-second-same", checks="m02", file=I, edits=[("      std::is_same_v<T, std::decay_t<deref_t<U>>>;", "      std::is_same_v<std::decay_t<deref_t<U>>, T>;")]),
 dict(id="in-emplace", checks="m02", file=I, edits=[("  return T{m<std::decay_t<std::tuple_element_t<I, Tuple>>>(s)...};", "  auto result = std::optional<T>{};\n  result.emplace(T{m<std::decay_t<std::tuple_element_t<I, Tuple>>>(s)...});\n  return result;")]),
 dict(id="in-tie-last", checks="m02", file=I, edits=[("    auto& [p1, p2, p3] = t;\n    return std::tie(p1, p2, p3);", "    auto& [x, y, z] = t;\n    return std::tuple<decltype(x)&, decltype(y)&, decltype(z)&>{x, y, z};")]),
 dict(id="sb-iota", checks="a15", file=S, edits=[("#include <algorithm>\n", "#include <algorithm>\n#include <numeric>\n"), (FILL, "  permutation.resize(order.size());\n  std::iota(begin(permutation), end(permutation), 0U);\n")]),
 dict(id="sb-push", checks="a15", file=S, edits=[(FILL, "  permutation.reserve(order.size());\n  for (auto i = 0U; i != order.size(); ++i) {\n    permutation.push_back(i);\n  }\n")]),
 dict(id="sb-ctor", checks="a15", file=S, edits=[("  std::vector<unsigned> permutation;\n  permutation.resize(order.size());\n", "  std::vector<unsigned> permutation(order.size());\n")]),
 dict(id="sb-stable", checks="a15", file=S, edits=[("std::sort(", "std::stable_sort(")]),
 dict(id="sb-greater", checks="a15", file=S, edits=[("return order[a] < order[b];", "auto const& x = order[a];\n              auto const& y = order[b];\n              return x < y;")]),
 dict(id="sb-apply-size", checks="a15", file=S, edits=[(APPLY, "  auto i = std::size_t{0U};\n  for (auto const from : permutation) {\n    vec[i++] = orig[from];\n  }\n")]),
 dict(id="sb-apply-less", checks="a15", file=S, edits=[(APPLY, "  for (std::size_t i = 0U; i < permutation.size(); ++i) {\n    auto const from = permutation[i];\n    vec[i] = orig[from];\n  }\n")]),
 dict(id="sb-apply-back", checks="a15", file=S, edits=[(APPLY, "  for (auto i = permutation.size(); i != 0U; --i) {\n    vec[i - 1U] = orig[permutation[i - 1U]];\n  }\n")]),
 dict(id="sb-ret-apply", checks="a15", file=S, edits=[("        apply_permutation(permutation, order, first);\n        (apply_permutation(permutation, ts, rest), ...);", "        (apply_permutation(permutation, ts, rest), ...);\n        apply_permutation(permutation, order, first);")]),
 dict(id="sb-transform", checks="a15", file=S, edits=[(APPLY, "  std::transform(begin(permutation), end(permutation), std::begin(vec),\n                 [&](unsigned const from) { return orig[from]; });\n")]),
 dict(id="sb-helper", checks="a15", file=S, edits=[("template <typename SortBy, typename... Ts>", "template <typename T>\nstd::vector<unsigned> order_of(T const& v) {\n  std::vector<unsigned> p(v.size());\n  for (auto i = 0U; i != p.size(); ++i) {\n    p[i] = i;\n  }\n  std::sort(begin(p), end(p), [&](unsigned const a, unsigned const b) {\n    return v[a] < v[b];\n  });\n  return p;\n}\n\ntemplate <typename SortBy, typename... Ts>"), ("  std::vector<unsigned> permutation;\n" + FILL + "  " + SORT, "  auto const permutation = order_of(order);")]),
]
