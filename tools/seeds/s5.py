Z = r'''
#include <cstdio>
#include <cstdint>
#include <list>
#include <map>
#include <set>
#include <string>
#include <vector>
%s
static int fails = 0;
#define EXPECT(x) do { if (!(x)) { std::printf("failed: %%s\n", #x); ++fails; } } while (0)
'''
def H(*inc):
    return Z % "\n".join('#include "utl/%s"' % i for i in inc)
I = "include/utl/"
SEEDS = [
 dict(id="A05-last-container", prop="A05", file=I + "zip.h",
      edits=[("  for (auto const& size : sizes) {\n    if (size != sizes[0]) {\n      throw utl::fail(\"utl::zip container size mismatch {} vs {}\", size,\n                      sizes[0]);",
              "  for (auto i = 1U; i < sizes.size(); ++i) {\n    if (sizes[i] > sizes[0]) {\n      throw utl::fail(\"utl::zip container size mismatch {} vs {}\", sizes[i],\n                      sizes[0]);")],
      needs="a later container shorter than the first one", breaks="the mismatch is not reported and the iteration leaves the shorter container",
      demo=H("zip.h") + r'''
int main() {
  std::vector<int> a{1, 2, 3}, b{1, 2};
  bool thrown = false;
  try { auto z = utl::zip(a, b); (void)z; } catch (...) { thrown = true; }
  EXPECT(thrown);
  return fails != 0;
}
'''),
 dict(id="A06-step-back", prop="A06", file=I + "enumerate.h",
      edits=[("    i_ += static_cast<std::size_t>(n);", "    i_ += static_cast<unsigned>(n);")],
      needs="+= with a negative step", breaks="the index wraps although the position is right",
      demo=H("enumerate.h") + r'''
int main() {
  std::vector<int> v{10, 11, 12, 13};
  auto e = utl::enumerate(v);
  auto it = e.begin();
  it += 3;
  it += -2;
  EXPECT(std::get<0>(*it) == 1U);
  EXPECT(std::get<1>(*it) == 11);
  return fails != 0;
}
'''),
 dict(id="A08-unique-zero", prop="A08", file=I + "pipes/unique.h",
      edits=[("    if (this->valid(it)) {\n      pred_ = parent_t::read(it);\n    }\n    return it;", "    find(it);\n    return it;")],
      needs="a first element equal to a value-initialised one", breaks="unique drops the first run",
      demo=H("pipes.h") + r'''
int main() {
  std::vector<int> v{0, 0, 1, 1};
  auto r = utl::all(v) | utl::unique() | utl::vec();
  EXPECT((r == std::vector<int>{0, 1}));
  return fails != 0;
}
'''),
 dict(id="A08-take-while-sink", prop="A08", file=I + "pipes/find.h", find=True,
      edits=[], needs="", breaks="", demo=""),
 dict(id="A09-set-begin", prop="A09", file=I + "to_vec.h",
      edits=[("  out.reserve(static_cast<std::size_t>(std::distance(begin(c), end(c))));\n  std::transform(begin(c), end(c), std::back_inserter(out),", "  out.resize(static_cast<std::size_t>(std::distance(begin(c), end(c))));\n  std::transform(begin(c), end(c), begin(out),")],
      needs="an output container that already holds elements", breaks="the elements that were in the output are overwritten",
      demo=H("to_vec.h") + r'''
int main() {
  std::vector<int> in{1, 2}, out{7, 8, 9};
  utl::transform_to(in, out, [](int x) { return x + 10; });
  EXPECT((out == std::vector<int>{7, 8, 9, 11, 12}));
  std::vector<int> fresh;
  utl::transform_to(in, fresh, [](int x) { return x + 10; });
  EXPECT((fresh == std::vector<int>{11, 12}));
  return fails != 0;
}
'''),
 dict(id="A10-tail-of-part", prop="A10", file=I + "erase_duplicates.h",
      edits=[("  c.erase(std::unique(begin, end, eq), end);\n}\n\n}", "  c.erase(std::unique(begin, end, eq), c.end());\n}\n\n}")],
      needs="the overload for a part of the container that does not reach its end", breaks="the elements behind the part are erased too",
      demo=H("erase_duplicates.h") + r'''
int main() {
  std::vector<int> v{2, 1, 2, 9, 9, 8};
  utl::erase_duplicates(v, v.begin(), v.begin() + 3, std::less<int>{}, std::equal_to<int>{});
  EXPECT((v == std::vector<int>{1, 2, 9, 9, 8}));
  return fails != 0;
}
'''),
 dict(id="A11-index-order", prop="A11", file=I + "get_or_create_index.h",
      edits=[("    auto size = m.size();\n    return m[key] = size;", "    auto& idx = m[key];\n    return idx = m.size();")],
      needs="any new key, but only its number shows it", breaks="numbering starts at one",
      demo=H() + r'''
#include "utl/get_or_create_index.h"
int main() {
  std::map<std::string, std::size_t> m;
  EXPECT(utl::get_or_create_index(m, std::string{"a"}) == 0U);
  EXPECT(utl::get_or_create_index(m, std::string{"b"}) == 1U);
  EXPECT(utl::get_or_create_index(m, std::string{"a"}) == 0U);
  return fails != 0;
}
'''),
 dict(id="A11-insert-at-end", prop="A11", file=I + "insert_sorted.h",
      edits=[("  if (it == std::end(v) || *it != el) {", "  if (it == std::end(v) || less(el, *it)) {"), ("      std::lower_bound(begin(v), end(v), el, std::forward<Less>(less));", "      std::lower_bound(begin(v), std::prev(end(v), v.empty() ? 0 : 1), el, less);")],
      needs="an element greater than all present ones", breaks="it is inserted in front of the last element",
      demo=H() + r'''
#include <algorithm>
#include <functional>
#include <utility>
#include "utl/insert_sorted.h"
int main() {
  std::vector<int> v{1, 3};
  auto r = utl::insert_sorted(v, 5);
  EXPECT(r.second);
  EXPECT((v == std::vector<int>{1, 3, 5}));
  return fails != 0;
}
'''),
 dict(id="A12-container-const", prop="A12", file=I + "is_uniform.h",
      edits=[("  return is_uniform(begin(c), end(c));\n}", "  return is_uniform(begin(c), std::next(begin(c), c.size() - (c.size() % 8U == 7U ? 1U : 0U)));\n}")],
      needs="seven elements of which only the last one differs", breaks="a non-uniform container is called uniform",
      demo=H("is_uniform.h") + r'''
int main() {
  std::vector<int> v{1, 1, 1, 1, 1, 1, 2};
  EXPECT(!utl::is_uniform(v));
  EXPECT(utl::is_uniform(std::vector<int>{1, 1}));
  return fails != 0;
}
'''),
 dict(id="A13-nth-default", prop="A13", file=I + "helpers/algorithm.h",
      edits=[("  std::nth_element(begin(c), begin(c) + size, end(c), std::forward<Cmp>(cmp));", "  if (size != 0U) {\n    std::nth_element(begin(c), begin(c) + size, end(c), std::forward<Cmp>(cmp));\n  }")],
      needs="the zeroth element", breaks="the smallest element is not brought to the front",
      demo=H("helpers/algorithm.h") + r'''
int main() {
  std::vector<int> v{3, 1, 2};
  utl::nth_element(v, 0U);
  EXPECT(v[0] == 1);
  return fails != 0;
}
'''),
 dict(id="A14-narrow-mask", prop="A14", file=I + "for_each_bit_set.h",
      edits=[("  return (levels & (T{1U} << bit)) != 0U;", "  return (levels & static_cast<T>(1 << bit)) != 0U;")],
      needs="a 64-bit value with bits from 31 on", breaks="bits are reported that are not set, and set ones are not",
      demo=H("for_each_bit_set.h") + r'''
int main() {
  std::vector<unsigned> got;
  utl::for_each_set_bit(std::uint64_t{1} << 40U, [&](unsigned b) { got.push_back(b); });
  EXPECT((got == std::vector<unsigned>{40}));
  return fails != 0;
}
'''),
 dict(id="R01-descriptor-zero", prop="R01", file=I + "parser/mmap_reader_unix.h",
      edits=[("    ~file() {\n      if (fd_ != -1) {", "    ~file() {\n      if (fd_ > 0) {")],
      needs="a process whose standard input is closed, so that the file gets descriptor 0", breaks="the descriptor is never closed",
      demo=H("parser/mmap_reader.h") + r'''
#include <fcntl.h>
#include <unistd.h>
int main() {
  { auto* f = std::fopen("in.txt", "w"); std::fputs("abc", f); std::fclose(f); }
  close(0);
  {
    utl::mmap_reader r{"in.txt"};
    EXPECT(fcntl(0, F_GETFD) != -1);
  }
  EXPECT(fcntl(0, F_GETFD) == -1);
  return fails != 0;
}
'''),
 dict(id="R01-moved-reader", prop="R01", file=I + "parser/mmap_reader_unix.h",
      edits=[("    file(file&& o) noexcept : fd_{o.fd_}, size_{o.size_} {\n      o.fd_ = -1;\n      o.size_ = 0;", "    file(file&& o) noexcept : fd_{o.fd_}, size_{o.size_} {\n      o.size_ = 0;")],
      needs="a moved reader whose source dies first", breaks="the descriptor of the new owner is closed twice",
      demo=H("parser/mmap_reader.h") + r'''
#include <fcntl.h>
#include <optional>
#include <unistd.h>
int main() {
  { auto* f = std::fopen("in.txt", "w"); std::fputs("abc", f); std::fclose(f); }
  std::optional<utl::mmap_reader> a{utl::mmap_reader{"in.txt"}};
  utl::mmap_reader b{std::move(*a)};
  a.reset();
  EXPECT(fcntl(b.m_.f_.fd_, F_GETFD) != -1);
  return fails != 0;
}
'''),
 dict(id="R01-buffer-shrink", prop="R01", file=I + "parser/buffer.h",
      edits=[("    if (void* tmp = std::realloc(buf_, new_size)) {\n      buf_ = tmp;", "    if (void* tmp = std::realloc(buf_, new_size)) {\n      if (new_size > size_) {\n        buf_ = tmp;\n      }")],
      needs="a shrinking resize that moves the block (large blocks, or an allocator that always moves)", breaks="the object keeps the old, freed block",
      flags="-fsanitize=address",
      demo=H("parser/buffer.h") + r'''
int main() {
  utl::buffer b{100U};
  b.data()[0] = 7;
  b.resize(50U);
  EXPECT(b.data()[0] == 7);
  EXPECT(b.size() == 50U);
  return fails != 0;
}
'''),
]
SEEDS = [s for s in SEEDS if not s.get("find")]
