import glob, os
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
AUX = {os.path.relpath(f, V + "/stubs/cista"): open(f).read() for f in glob.glob(V + "/stubs/cista/**/*.h", recursive=True)}
I = "include/utl/"
H = '''#include <cstdio>
#include <list>
#include <string>
#include <utility>
#include <vector>
#include "utl/enumerate.h"
#include "utl/nwise.h"
#include "utl/pipes.h"
#include "utl/zip.h"
static int fails = 0;
#define EXPECT(c) do { if (!(c)) { std::fprintf(stderr, "line %d: %s\\n", __LINE__, #c); ++fails; } } while (0)
'''
SEEDS = [
 dict(id="A05-const-third", prop="A05", file=I + "zip.h",
      edits=[("  typename const_iterator::References operator[](std::size_t const i) const {\n    return *std::next(begin(),\n                      static_cast<typename iterator::difference_type>(i));", "  typename const_iterator::References operator[](std::size_t const i) const {\n    auto const skip = sizeof...(Containers) > 2 && i != 0U ? 1U : 0U;\n    return *std::next(begin(), static_cast<typename iterator::difference_type>(\n                                   i - skip));")],
      needs="the index operator of a const view over three or more containers", breaks="the element before the asked one is returned",
      demo=H + r'''
int main() {
  std::vector<int> a{1, 2, 3}, b{4, 5, 6}, c{7, 8, 9};
  auto two = utl::zip(a, b);
  EXPECT(std::get<1>(two[2]) == 6);
  auto const ctwo = utl::zip(a, b);
  EXPECT(std::get<1>(ctwo[2]) == 6);
  auto three = utl::zip(a, b, c);
  EXPECT(std::get<2>(three[1]) == 8);
  auto const cthree = utl::zip(a, b, c);
  EXPECT(std::get<2>(cthree[0]) == 7);
  EXPECT(std::get<2>(cthree[1]) == 8);
  return fails != 0;
}
'''),
 dict(id="A05-strict-order", prop="A05", file=I + "zip.h",
      edits=[("bool operator<=(SelfType const& rhs) const { return its_ <= rhs.its_; }", "bool operator<=(SelfType const& rhs) const { return its_ < rhs.its_; }")],
      needs="a loop that compares zip iterators with <=", breaks="equal positions are not <= each other",
      demo=H + r'''
int main() {
  std::vector<int> a{1, 2, 3}, b{4, 5, 6};
  auto z = utl::zip(a, b);
  EXPECT(z.begin() < z.end());
  EXPECT(z.begin() <= z.end());
  EXPECT(z.begin() <= z.begin());
  EXPECT(!(z.end() <= z.begin()));
  return fails != 0;
}
'''),
 dict(id="A08-long-temporary", prop="A08", file=I + "pipes/all.h",
      edits=[("  template <typename It>\n  bool valid(It& it) const {\n    return it != end();", "  template <typename It>\n  bool valid(It& it) const {\n    return it != std::next(begin(), static_cast<std::uint8_t>(c_.size()));"), ("#include <initializer_list>", "#include <cstdint>\n#include <initializer_list>\n#include <iterator>")],
      needs="a temporary container of 256 or more elements", breaks="the pipeline stops at the size modulo 256",
      demo=H + r'''
int main() {
  for (auto n : {0U, 1U, 3U, 255U, 256U, 300U}) {
    auto v = std::vector<unsigned>(n, 1U);
    auto k = 0U;
    utl::all(std::move(v)) | utl::for_each([&](unsigned const x) { if (k < 1000U) { k += x; } });
    EXPECT(k == n);
    if (fails != 0) { return 1; }
  }
  return 0;
}
'''),
 dict(id="A04-short-temporary", prop="A04", file=I + "nwise.h",
      edits=[("    return static_cast<std::size_t>(std::distance(this->begin(), this->end()));", "    return static_cast<std::size_t>(std::distance(begin(t_), end(t_))) + 1U - N;")],
      needs="size() of a view over a temporary with fewer than N - 1 elements", breaks="the size wraps around",
      demo=H + r'''
int main() {
  EXPECT(utl::nwise<2>(std::vector<int>{1, 2, 3}).size() == 2U);
  EXPECT(utl::nwise<3>(std::vector<int>{1, 2}).size() == 0U);
  EXPECT(utl::nwise<3>(std::vector<int>{1}).size() == 0U);
  EXPECT(utl::nwise<4>(std::vector<int>{}).size() == 0U);
  return fails != 0;
}
'''),
 dict(id="P03-column-64", prop="P03", file=I + "parser/csv_range.h", aux=AUX,
      edits=[("    for (column_idx_t i = 0; i < MAX_COLUMNS && s; ++i) {", "    auto const last = column_idx_t{MAX_COLUMNS - 1U};\n    for (column_idx_t i = 0; i != last && s; ++i) {")],
      needs="a table with 64 columns whose last one is wanted", breaks="the last column stays empty",
      demo=r'''
#include <cstdio>
#include <string>
#include "utl/parser/csv_range.h"
#include "utl/parser/buf_reader.h"
#include "utl/parser/line_range.h"
#include "utl/pipes.h"
struct rec {
  auto cista_members() { return std::tie(a, b); }
  utl::csv_col<int, UTL_NAME("first")> a;
  utl::csv_col<int, UTL_NAME("last")> b;
};
int main() {
  for (auto const n : {2, 3, 63, 64}) {
    auto head = std::string{"first"}, row = std::string{"7"};
    for (auto i = 1; i < n - 1; ++i) { head += ",x"; row += ",0"; }
    head += ",last\n"; row += ",9\n";
    auto const text = head + row;
    auto k = 0;
    utl::line_range{utl::make_buf_reader(utl::cstr{text.data(), text.size()})} | utl::csv<rec>() | utl::for_each([&](rec const& r) {
      if (r.a.val() == 7 && r.b.val() == 9) { ++k; }
    });
    if (k != 1) { std::fprintf(stderr, "%d columns\\n", n); return 1; }
  }
  return 0;
}
'''),
]
