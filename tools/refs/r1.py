I = "include/utl/"
REFS = [
 # sorted_diff
 dict(id="sd-helper", checks="a01", file=I+"sorted_diff.h", edits=[
  ("template <typename It, typename Lt, typename Eq, typename Fn>\nvoid sorted_diff(It a,", "template <typename It, typename Fn>\nvoid report_single(op const o, It& it, Fn& fn) {\n  fn(o, *it);\n  ++it;\n}\n\ntemplate <typename It, typename Lt, typename Eq, typename Fn>\nvoid sorted_diff(It a,"),
  ("      fn(op::kAdd, *b);\n      ++b;", "      report_single(op::kAdd, b, fn);"),
  ("      fn(op::kDel, *a);\n      ++a;", "      report_single(op::kDel, a, fn);")]),
 dict(id="sd-split-loops", checks="a01", file=I+"sorted_diff.h", edits=[
  ("  while (a != a_end || b != b_end) {\n    if (a == a_end) {\n      fn(op::kAdd, *b);\n      ++b;\n    } else if (b == b_end) {\n      fn(op::kDel, *a);\n      ++a;\n    } else if (cmp", "  while (a != a_end && b != b_end) {\n    if (cmp"),
  ("      ++a;\n      ++b;\n    }\n  }\n", "      ++a;\n      ++b;\n    }\n  }\n  for (; a != a_end; ++a) {\n    fn(op::kDel, *a);\n  }\n  std::for_each(b, b_end, [&](auto const& x) { fn(op::kAdd, x); });\n"),
  ("#pragma once", "#pragma once\n#include <algorithm>")]),
 dict(id="sd-order", checks="a01", file=I+"sorted_diff.h", edits=[
  ("    } else if (cmp(*a, *b)) {\n      fn(op::kDel, *a);\n      ++a;\n    } else if (cmp(*b, *a)) {\n      fn(op::kAdd, *b);\n      ++b;\n    } else {", "    } else if (auto const b_less = cmp(*b, *a); b_less) {\n      fn(op::kAdd, *b);\n      ++b;\n    } else if (cmp(*a, *b)) {\n      fn(op::kDel, *a);\n      ++a;\n    } else {")]),
 # joins
 dict(id="join-helper", checks="a02", file=I+"join.h", edits=[
  ("// precondition everywhere", "template <typename It, typename Less>\nIt end_of_group(It it, It const end, Less& less) {\n  auto const first = it;\n  do {\n    ++it;\n  } while (it != end && !less(*first, *it));\n  return it;\n}\n\n// precondition everywhere"),
  ("    auto a_upper = a_lower;\n    while (a_upper != a_end && !(less(*a_lower, *a_upper))) {\n      ++a_upper;\n    }", "    auto const a_upper = end_of_group(a_lower, a_end, less);"),
  ("    auto b_upper = b_lower;\n    while (b_upper != b_end && !less(*b_lower, *b_upper)) {\n      ++b_upper;\n    }", "    auto const b_upper = end_of_group(b_lower, b_end, less);")]),
 dict(id="join-b-groups", checks="a02", file=I+"join.h", edits=[
  ("    auto b_start = b_lower;\n    while (b_lower != b_end && less(*b_lower, *a_lower)) {\n      if (next(b_lower) == b_end || less(*b_lower, *next(b_lower))) {\n        fn_b(b_start, next(b_lower));\n        b_start = next(b_lower);\n      }\n\n      ++b_lower;\n    }",
   "    while (b_lower != b_end && less(*b_lower, *a_lower)) {\n      auto b_next = next(b_lower);\n      while (b_next != b_end && !less(*b_lower, *b_next)) {\n        ++b_next;\n      }\n      fn_b(b_lower, b_next);\n      b_lower = b_next;\n    }")]),
 dict(id="join-tail", checks="a02", file=I+"join.h", edits=[
  ("  auto b_last = b_lower;\n  while (b_last != b_end) {  // finish remaining b groups\n    if (next(b_last) == b_end || less(*b_last, *next(b_last))) {\n      fn_b(b_lower, next(b_last));\n      b_lower = next(b_last);\n    }\n    ++b_last;\n  }",
   "  for (auto b_last = b_lower; b_last != b_end; ++b_last) {\n    auto const after = next(b_last);\n    auto const is_last = after == b_end || less(*b_last, *after);\n    if (!is_last) {\n      continue;\n    }\n    fn_b(b_lower, after);\n    b_lower = after;\n  }"),
  ("      if (a_lower != a_end) {\n        fn_a(a_lower, a_upper);\n        a_lower = a_upper;\n        continue;  // finish \"a\" groups\n      }\n      break;  // both finished\n    }\n    if (less(*a_lower, *b_lower)) {", "      fn_a(a_lower, a_upper);\n      a_lower = a_upper;\n      continue;\n    }\n    if (less(*a_lower, *b_lower)) {") ] if False else [
  ("  auto b_last = b_lower;\n  while (b_last != b_end) {  // finish remaining b groups\n    if (next(b_last) == b_end || less(*b_last, *next(b_last))) {\n      fn_b(b_lower, next(b_last));\n      b_lower = next(b_last);\n    }\n    ++b_last;\n  }",
   "  for (auto b_last = b_lower; b_last != b_end; ++b_last) {\n    auto const after = next(b_last);\n    auto const is_last = after == b_end || less(*b_last, *after);\n    if (!is_last) {\n      continue;\n    }\n    fn_b(b_lower, after);\n    b_lower = after;\n  }")]),
 # equal ranges
 dict(id="er-do", checks="a03", file=I+"equal_ranges_linear.h", edits=[
  ("  auto lower = begin;\n  while (lower != end) {\n    auto upper = lower;\n    while (upper != end && *lower == *upper) {\n      ++upper;\n    }\n    func(lower, upper);\n    lower = upper;\n  }", "  for (auto lower = begin; lower != end;) {\n    auto upper = std::next(lower);\n    for (; upper != end && *lower == *upper; ++upper) {\n    }\n    func(lower, upper);\n    lower = upper;\n  }"), ("#pragma once", "#pragma once\n#include <iterator>")]),
 dict(id="er-delegate", checks="a03", file=I+"equal_ranges_linear.h", edits=[
  ("  auto lower = begin;\n  while (lower != end) {\n    auto upper = lower;\n    while (upper != end && *lower == *upper) {\n      ++upper;\n    }\n    func(lower, upper);\n    lower = upper;\n  }", "  equal_ranges_linear(begin, end, [](auto&& a, auto&& b) { return a == b; }, std::forward<F>(func));"),
  ("template <typename Iterator, typename F>", "template <typename Iterator, typename Eq, typename F>\nvoid equal_ranges_linear(Iterator begin, Iterator end, Eq&& eq, F&& func);\n\ntemplate <typename Iterator, typename F>")]),
 dict(id="er-findif", checks="a03", file=I+"equal_ranges_linear.h", edits=[
  ("    auto upper = lower;\n    while (upper != end && eq(*lower, *upper)) {\n      ++upper;\n    }", "    auto const upper = std::find_if(lower, end, [&](auto const& x) { return !eq(*lower, x); });"), ("#pragma once", "#pragma once\n#include <algorithm>")]),
 dict(id="er-ub-from-lower", checks="a03", file=I+"equal_ranges.h", edits=[
  ("std::upper_bound(begin(c), end(c), *lower);", "std::upper_bound(lower, end(c), *lower);"), ("std::upper_bound(begin(c), end(c), *lower, cmp);", "std::upper_bound(std::next(lower), end(c), *lower, cmp);")]),
 dict(id="er-less", checks="a03", file=I+"equal_ranges.h", edits=[
  ("  std::sort(begin(c), end(c));\n  auto lower = begin(c);\n  while (lower != end(c)) {\n    auto upper = std::upper_bound(begin(c), end(c), *lower);\n    func(lower, upper);\n    lower = upper;\n  }", "  auto const last = end(c);\n  std::sort(begin(c), last);\n  for (auto lower = begin(c); lower != last;) {\n    auto const upper = std::upper_bound(lower, last, *lower);\n    func(lower, upper);\n    lower = upper;\n  }")]),
 # is_uniform
 dict(id="iu-all_of", checks="a12", file=I+"is_uniform.h", edits=[
  ("  auto it = it1;\n  for (++it; it != it2; ++it) {\n    if (*it != *it1) {\n      return false;\n    }\n  }\n  return true;", "  return std::all_of(std::next(it1), it2, [&](auto const& x) { return x == *it1; });"), ("#pragma once", "#pragma once\n#include <algorithm>\n#include <iterator>")]),
 dict(id="iu-hoist", checks="a12", file=I+"is_uniform.h", edits=[
  ("  auto it = it1;\n  for (++it; it != it2; ++it) {\n    if (fn(*it) != fn(*it1)) {\n      return false;\n    }\n  }\n  return true;", "  auto&& first = fn(*it1);\n  auto it = it1;\n  while (++it != it2) {\n    if (first != fn(*it)) {\n      return false;\n    }\n  }\n  return true;")]),
 dict(id="iu-adjacent", checks="a12", file=I+"is_uniform.h", edits=[
  ("  auto it = it1;\n  for (++it; it != it2; ++it) {\n    if (*it != *it1) {\n      return false;\n    }\n  }\n  return true;", "  auto const& first = *it1;\n  auto it = it1;\n  auto same = true;\n  while (same && ++it != it2) {\n    same = !(*it != first);\n  }\n  return same;")]),
 # bits
 dict(id="bits-shift", checks="a14", file=I+"for_each_bit_set.h", edits=[
  ("(levels & (T{1U} << bit)) != 0U", "((levels >> bit) & T{1U}) == T{1U}")]),
 dict(id="bits-loop", checks="a14", file=I+"for_each_bit_set.h", edits=[
  ("  for (auto bit = 0U; bit != sizeof(T) * 8U; ++bit) {\n    if (has_bit_set(levels, bit)) {\n      f(bit);\n    }\n  }", "  constexpr auto const kBits = static_cast<unsigned>(sizeof(T) * 8U);\n  auto bit = 0U;\n  while (bit < kBits) {\n    if (auto const set = has_bit_set(levels, bit); set) {\n      f(bit);\n    }\n    bit += 1U;\n  }")]),
 dict(id="bits-countr", checks="a14", file=I+"for_each_bit_set.h", edits=[
  ("  for (auto bit = 0U; bit != sizeof(T) * 8U; ++bit) {\n    if (has_bit_set(levels, bit)) {\n      f(bit);\n    }\n  }", "  auto rest = levels;\n  for (auto bit = 0U; rest != 0U; ++bit, rest = static_cast<T>(rest >> 1U)) {\n    if ((rest & 1U) != 0U) {\n      f(bit);\n    }\n  }"),
  ("T const levels, Fn&& f", "T levels, Fn&& f")]),
 dict(id="bits-clear-low", checks="a14", file=I+"for_each_bit_set.h", edits=[
  ("  for (auto bit = 0U; bit != sizeof(T) * 8U; ++bit) {\n    if (has_bit_set(levels, bit)) {\n      f(bit);\n    }\n  }", "  for (auto rest = levels; rest != 0U; rest = static_cast<T>(rest & (rest - 1U))) {\n    f(static_cast<unsigned>(std::countr_zero(rest)));\n  }"), ("#pragma once", "#pragma once\n#include <bit>")]),
 # power set
 dict(id="psi-for", checks="a07", file=I+"power_set_intersection.h", edits=[
  ("  while (b != b_end) {\n    if (lt(*a, *b) || lt(*b, *a)) {\n      return;\n    }\n    Swap ? fn(*b, *a) : fn(*a, *b);\n    ++b;\n  }", "  for (; b != b_end && !lt(*a, *b) && !lt(*b, *a); ++b) {\n    if constexpr (Swap) {\n      fn(*b, *a);\n    } else {\n      fn(*a, *b);\n    }\n  }")]),
 dict(id="psi-blocks", checks="a07", file=I+"power_set_intersection.h", edits=[
  ("      for_each_equal<false>(a, b, b_end, lt, fn);\n      ++a;\n      for_each_equal<true>(b, a, a_end, lt, fn);\n      ++b;", "      auto a_up = a;\n      while (a_up != a_end && !lt(*b, *a_up)) {\n        ++a_up;\n      }\n      auto b_up = b;\n      while (b_up != b_end && !lt(*a, *b_up)) {\n        ++b_up;\n      }\n      for (auto x = a; x != a_up; ++x) {\n        for (auto y = b; y != b_up; ++y) {\n          fn(*x, *y);\n        }\n      }\n      a = a_up;\n      b = b_up;")]),
 # erase
 dict(id="erase-idiom", checks="a10", file=I+"erase_if.h", edits=[
  ("  c.erase(std::remove_if(begin(c), end(c), std::forward<Predicate>(pred)),\n          end(c));", "  auto const last = end(c);\n  auto const new_end = std::remove_if(begin(c), last, pred);\n  c.erase(new_end, last);")]),
 dict(id="erase-guard", checks="a10", file=I+"erase.h", edits=[
  ("  c.erase(std::remove(begin(c), end(c), elem), end(c));", "  auto const it = std::remove_if(begin(c), end(c), [&](auto const& x) { return x == elem; });\n  if (it != end(c)) {\n    c.erase(it, end(c));\n  }")]),
 dict(id="erase-dup-delegate", checks="a10", file=I+"erase_duplicates.h", edits=[
  ("  std::sort(begin(c), end(c), less);\n  c.erase(std::unique(begin(c), end(c), eq), end(c));", "  auto const first = begin(c);\n  std::sort(first, end(c), std::forward<Less>(less));\n  auto const last = std::unique(first, end(c), std::forward<Eq>(eq));\n  c.erase(last, end(c));")]),
 # maps
 dict(id="goc-early", checks="a11", file=I+"get_or_create.h", edits=[
  ("  if (auto const it = m.find(key); it == end(m)) {\n    if constexpr", "  auto const it = m.find(key);\n  if (it != end(m)) {\n    return it->second;\n  }\n  {\n    if constexpr"),
  ("  } else {\n    return it->second;\n  }\n}", "  }\n}")]),
 dict(id="goi-emplace", checks="a11", file=I+"get_or_create_index.h", edits=[
  ("  auto it = m.find(key);\n  if (it != end(m)) {\n    return it->second;\n  } else {\n    auto size = m.size();\n    return m[key] = size;\n  }", "  if (auto const it = m.find(key); it != end(m)) {\n    return it->second;\n  }\n  auto const idx = m.size();\n  m.emplace(key, idx);\n  return idx;")]),
 dict(id="goi-inverted", checks="a11", file=I+"get_or_create_index.h", edits=[
  ("  auto it = m.find(key);\n  if (it != end(m)) {\n    return it->second;\n  } else {\n    auto size = m.size();\n    return m[key] = size;\n  }", "  auto const it = m.find(key);\n  if (it == end(m)) {\n    auto const next_index = m.size();\n    m[key] = next_index;\n    return next_index;\n  }\n  return it->second;")]),
 dict(id="ins-found", checks="a11", file=I+"insert_sorted.h", edits=[
  ("  if (it == std::end(v) || *it != el) {\n    return {v.insert(it, std::move(el)), true};\n  }\n  return {it, false};", "  if (auto const found = it != end(v) && !(*it != el); found) {\n    return {it, false};\n  }\n  return {v.insert(it, std::move(el)), true};")]),
 # vec / set / concat
 dict(id="tv-loop", checks="a09", file=I+"to_vec.h", edits=[
  ("  auto v = std::vector<std::decay_t<decltype(op(*s))>>{};\n  v.reserve(static_cast<std::size_t>(std::distance(s, e)));\n  std::transform(s, e, std::back_inserter(v), std::forward<UnaryOperation>(op));", "  auto v = std::vector<std::decay_t<decltype(op(*s))>>{};\n  v.reserve(static_cast<std::size_t>(std::distance(s, e)));\n  for (; s != e; ++s) {\n    v.emplace_back(op(*s));\n  }"),
  ("  std::transform(begin(c), end(c), std::back_inserter(v),\n                 std::forward<UnaryOperation>(op));\n  return v;\n}\n\ntemplate <typename It", "  for (auto&& x : c) {\n    v.push_back(op(x));\n  }\n  return v;\n}\n\ntemplate <typename It")]),
 dict(id="tv-delegate", checks="a09", file=I+"to_vec.h", edits=[
  ("  v.reserve(static_cast<std::size_t>(std::distance(begin(c), end(c))));\n  std::copy(begin(c), end(c), std::back_inserter(v));\n", "  v.insert(end(v), begin(c), end(c));\n")]),
 dict(id="tv-transform-to", checks="a09", file=I+"to_vec.h", edits=[
  ("  Output v;\n  v.reserve(static_cast<std::size_t>(std::distance(begin(c), end(c))));\n  std::transform(begin(c), end(c), std::back_inserter(v),\n                 std::forward<UnaryOperation>(op));\n", "  Output v;\n  transform_to(c, v, std::forward<UnaryOperation>(op));\n")]),
 dict(id="ts-loop", checks="a09", file=I+"to_set.h", edits=[
  ("  std::transform(b, e, std::insert_iterator<set>(s, s.begin()), op);", "  for (auto it = b; it != e; ++it) {\n    s.insert(op(*it));\n  }"),
  ("  std::transform(std::begin(c), std::end(c),\n                 std::insert_iterator<set>(s, begin(s)), op);", "  for (auto const& x : c) {\n    s.emplace(op(x));\n  }")]),
 dict(id="concat-loop", checks="a09", file=I+"concat.h", edits=[
  ("  c1.insert(end(c1), begin(c2), end(c2));", "  auto const first = begin(c2);\n  auto const last = end(c2);\n  c1.insert(end(c1), first, last);")]),
 # nwise
 dict(id="nw-index", checks="a04", file=I+"nwise.h", edits=[
  ("    auto curr = begin;\n    for (auto& it : its_) {\n      it = curr;\n      if (curr != end) {\n        ++curr;\n      }\n    }", "    auto curr = begin;\n    for (auto i = std::size_t{0U}; i != N; ++i) {\n      its_[i] = curr;\n      curr = curr == end ? curr : std::next(curr);\n    }"),
  ("    return its_.back() != o.its_.back();", "    return !(*this == o);")]),
 dict(id="nw-inc", checks="a04", file=I+"nwise.h", edits=[
  ("    for (auto& it : its_) {\n      ++it;\n    }\n    return *this;", "    std::for_each(its_.begin(), its_.end(), [](It& it) { ++it; });\n    return *this;"), ("#pragma once", "#pragma once\n#include <algorithm>")]),
 # sort_by
 dict(id="sb-iota", checks="a15", file=I+"sort_by.h", edits=[
  ("  std::vector<unsigned> permutation;\n  permutation.resize(order.size());\n  for (auto i = 0U; i != permutation.size(); ++i) {\n    permutation[i] = i;\n  }", "  auto permutation = std::vector<unsigned>(order.size());\n  std::iota(begin(permutation), end(permutation), 0U);"), ("#include <tuple>", "#include <numeric>\n#include <tuple>")]),
 dict(id="sb-range-for", checks="a15", file=I+"sort_by.h", edits=[
  ("  for (auto i = 0U; i != permutation.size(); ++i) {\n    vec[i] = orig[permutation[i]];\n  }", "  auto i = std::size_t{0U};\n  for (auto const p : permutation) {\n    vec[i] = orig[p];\n    ++i;\n  }")]),
]
B0 = "  for (auto bit = 0U; bit != sizeof(T) * 8U; ++bit) {\n    if (has_bit_set(levels, bit)) {\n      f(bit);\n    }\n  }"
BI = ("#pragma once", "#pragma once\n#include <bit>")
REFS += [
 dict(id="bits-xor", checks="a14", file=I+"for_each_bit_set.h", edits=[(B0, "  auto rest = levels;\n  while (rest != 0U) {\n    auto const bit = static_cast<unsigned>(std::countr_zero(rest));\n    f(bit);\n    rest = static_cast<T>(rest ^ (T{1U} << bit));\n  }"), BI]),
 dict(id="bits-nmask", checks="a14", file=I+"for_each_bit_set.h", edits=[(B0, "  auto rest = levels;\n  while (rest != 0U) {\n    auto const bit = static_cast<unsigned>(std::countr_zero(rest));\n    f(bit);\n    rest &= static_cast<T>(~(T{1U} << bit));\n  }"), BI]),
 dict(id="bits-mask-loop", checks="a14", file=I+"for_each_bit_set.h", edits=[(B0, "  auto mask = T{1U};\n  for (auto bit = 0U; bit != sizeof(T) * 8U; ++bit) {\n    if ((levels & mask) != 0U) {\n      f(bit);\n    }\n    mask = static_cast<T>(mask << 1U);\n  }")]),
 dict(id="bits-shift-ctz", checks="a14", file=I+"for_each_bit_set.h", edits=[(B0, "  auto bit = 0U;\n  for (auto rest = levels; rest != 0U;) {\n    auto const skip = static_cast<unsigned>(std::countr_zero(rest));\n    bit += skip;\n    f(bit);\n    ++bit;\n    rest = static_cast<T>((rest >> skip) >> 1U);\n  }"), BI]),
 dict(id="bits-popcount", checks="a14", file=I+"for_each_bit_set.h", edits=[(B0, "  auto left = std::popcount(levels);\n  for (auto bit = 0U; left != 0; ++bit) {\n    if (has_bit_set(levels, bit)) {\n      f(bit);\n      --left;\n    }\n  }"), BI]),
]
