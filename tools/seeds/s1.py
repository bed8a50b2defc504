HDR = r'''
#include <cstdint>
#include <cstdio>
#include <string>
#include <vector>
'''
SEEDS = [
 dict(id="A01-dup-keys", prop="A01", file="include/utl/sorted_diff.h",
      edits=[("      ++a;\n      ++b;\n    }\n", "      auto const prev = a;\n      do {\n        ++a;\n      } while (a != a_end && !cmp(*prev, *a));\n      ++b;\n    }\n")],
      needs="duplicate keys in the first range", breaks="surplus duplicates of a paired key are dropped instead of reported as deleted",
      demo=HDR + r'''
#include "utl/sorted_diff.h"
int main() {
  std::vector<std::pair<int,int>> a{{1,1},{1,2},{2,3}}, b{{1,1},{2,3}};
  int del = 0, add = 0, chg = 0;
  struct F { int &d, &a, &c;
    void operator()(utl::op o, std::pair<int,int> const&) { (o == utl::op::kDel ? d : a)++; }
    void operator()(std::pair<int,int> const&, std::pair<int,int> const&) { c++; } } f{del, add, chg};
  utl::sorted_diff(a, b, [](auto& x, auto& y) { return x.first < y.first; }, [](auto& x, auto& y) { return x == y; }, f);
  return del == 1 && add == 1 - 1 && chg + 0 <= 1 && del - add == 1 ? 0 : 1;
}
'''),
 dict(id="A02-right-runs", prop="A02", file="include/utl/join.h",
      edits=[("    auto b_upper = b_lower;\n    while (b_upper != b_end && !less(*b_lower, *b_upper)) {\n      ++b_upper;\n    }\n",
              "    auto b_upper = b_lower;\n    auto const n = std::distance(a_lower, a_upper);\n    while (b_upper != b_end && !less(*b_lower, *b_upper) &&\n           (n == 1 || std::distance(b_lower, b_upper) <= n)) {\n      ++b_upper;\n    }\n")],
      needs="a run of duplicates on the left and a right run longer by two", breaks="the surplus right elements of a matching group are reported as a group of their own",
      demo=HDR + r"""
#include "utl/join.h"
int main() {
  std::vector<int> a{1, 1}, b{1, 1, 1, 1};
  std::vector<long> sizes;
  utl::full_join(a, b, [&](auto x, auto y, auto p, auto q) { sizes.push_back(y - x); sizes.push_back(q - p); }, [](auto, auto) {}, [&](auto, auto) { sizes.push_back(-1); });
  return sizes == std::vector<long>{2, 4} ? 0 : 1;
}
"""),
 dict(id="A07-three-dups", prop="A07", file="include/utl/power_set_intersection.h",
      edits=[("      for_each_equal<true>(b, a, a_end, lt, fn);", "      for_each_equal<true>(b, a, a == a_end ? a_end : std::next(a), lt, fn);")],
      needs="three duplicates on the left against duplicates on the right", breaks="pairs of the third duplicate are not reported",
      demo=HDR + r'''
#include <iterator>
#include "utl/power_set_intersection.h"
int main() {
  std::vector<int> a{1, 1, 1, 1}, b{1};
  int n = 0;
  utl::power_set_intersection(a, b, [&](int, int) { ++n; });
  return n == 4 ? 0 : 1;
}
'''),
 dict(id="A04-short-range", prop="A04", file="include/utl/nwise.h",
      edits=[("    auto curr = begin;\n    for (auto& it : its_) {\n      it = curr;\n      if (curr != end) {\n        ++curr;\n      }\n    }\n",
              "    auto curr = begin;\n    for (auto& it : its_) {\n      it = curr;\n      if (curr != end && std::next(curr) != end) {\n        ++curr;\n      } else if (its_.front() == end || N == 2U) {\n        curr = end;\n      }\n    }\n")],
      needs="windows wider than two over a container shorter than the window", breaks="a window of repeated elements is produced for a container that is too short",
      demo=HDR + r'''
#include <iterator>
#include "utl/nwise.h"
int main() {
  std::vector<int> v{1, 2};
  v.reserve(16);
  int n = 0;
  for (auto&& w : utl::nwise<3>(v)) { (void)w; if (++n > 3) break; }
  return n == 0 ? 0 : 1;
}
'''),
 dict(id="A03-last-run", prop="A03", file="include/utl/equal_ranges_linear.h",
      edits=[("    while (upper != end && eq(*lower, *upper)) {\n      ++upper;\n    }", "    while (upper != end && eq(upper == lower ? *lower : *std::prev(upper), *upper)) {\n      ++upper;\n    }")],
      needs="an equality that holds between neighbours but not with the first element of the run is not an equivalence; needs a tolerance style predicate",
      breaks="runs are chained by neighbour instead of compared with their first element",
      demo=HDR + r'''
#include <cstdlib>
#include "utl/equal_ranges_linear.h"
int main() {
  std::vector<int> v{1, 2, 3, 4};
  int n = 0;
  utl::equal_ranges_linear(v, [](int a, int b) { return std::abs(a - b) <= 1; }, [&](auto, auto) { ++n; });
  return n == 2 ? 0 : 1;
}
'''),
]
