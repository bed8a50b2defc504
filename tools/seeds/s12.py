I = "include/utl/"
H = '''#include <cstddef>
#include <cstdio>
#include <iterator>
#include <type_traits>
#include "utl/iterator_facade.h"
static int fails = 0;
#define EXPECT(c) do { if (!(c)) { std::fprintf(stderr, "line %d: %s\\n", __LINE__, #c); ++fails; } } while (0)
struct num : utl::iterator_facade<num> {
  explicit num(std::ptrdiff_t v = 0) : v_{v} {}
  std::ptrdiff_t dereference() const noexcept { return v_; }
  void advance(std::ptrdiff_t n) noexcept { v_ += n; }
  std::ptrdiff_t distance_to(num const& o) const noexcept { return o.v_ - v_; }
  std::ptrdiff_t v_;
};
'''
F = I + "iterator_facade.h"
SEEDS = [
 dict(id="M04-far-apart", prop="M04", file=F,
      edits=[("    return (left - right) < 0;\n", "    int const by = static_cast<int>(left - right);\n    return by < 0;\n")],
      needs="two positions at least 2^31 apart", breaks="they compare in the wrong order",
      demo=H + r'''
int main() {
  num const a{0}, b{std::ptrdiff_t{3} << 31};
  EXPECT(a < b);
  EXPECT(!(b < a));
  EXPECT(num{0} < num{std::ptrdiff_t{3} << 30});
  EXPECT(num{1} < num{2} && !(num{2} < num{2}));
  return fails != 0;
}
'''),
 dict(id="M04-unsigned-back", prop="M04", file=F,
      edits=[("    using diff_type = detail::infer_difference_type_t<self_type>;\n    using signed_diff_type = std::make_signed_t<diff_type>;\n    return self + -static_cast<signed_diff_type>(off);", "    return self + -off;")],
      needs="an offset of type unsigned", breaks="going back by it goes 2^32 - n forward",
      demo=H + r'''
int main() {
  num const a{10};
  EXPECT(*(a - 3) == 7);
  EXPECT(*(a - 3U) == 7);
  num b{10};
  b -= 4U;
  EXPECT(*b == 6);
  return fails != 0;
}
'''),
 dict(id="M04-flag-value", prop="M04", file=F,
      edits=[("concept iter_is_single_pass = bool(T::single_pass_iterator);", "concept iter_is_single_pass = requires { T::single_pass_iterator; };")],
      needs="an iterator that states single_pass_iterator = false", breaks="it is taken for a single-pass iterator: postfix increment gives nothing",
      demo=H + r'''
template <bool B> struct it : utl::iterator_facade<it<B>> {
  static constexpr bool single_pass_iterator = B;
  int dereference() const noexcept { return i_; }
  void increment() noexcept { ++i_; }
  bool equal_to(it const& o) const noexcept { return i_ == o.i_; }
  int i_{};
};
int main() {
  EXPECT((std::is_same_v<std::iterator_traits<it<false>>::iterator_category, std::forward_iterator_tag>));
  EXPECT((std::is_same_v<std::iterator_traits<it<true>>::iterator_category, std::input_iterator_tag>));
  EXPECT((std::is_same_v<decltype(std::declval<it<false>&>()++), it<false>>));
  return fails != 0;
}
'''),
 dict(id="M04-copy-moved", prop="M04", file=F,
      edits=[("  constexpr friend self_type& operator+=(self_type& self, D off) noexcept", "  constexpr friend self_type operator+=(self_type& self, D off) noexcept")],
      needs="using the result of += to move on", breaks="the second move is applied to a copy and lost",
      demo=H + r'''
int main() {
  num a{1};
  ++(a += 2);
  EXPECT(*a == 4);
  EXPECT(*(a + 1) == 5);
  return fails != 0;
}
'''),
 dict(id="M04-cheap-step", prop="M04", file=F,
      edits=[("    if constexpr (detail::iter_has_increment_method<self_type>) {\n      // If", "    if constexpr (detail::iter_has_increment_method<self_type> &&\n                  !detail::iter_is_random_access<self_type>) {\n      // If")],
      needs="an iterator with increment() and random access", breaks="++ does not use increment()",
      demo=H + r'''
struct both : utl::iterator_facade<both> {
  int dereference() const noexcept { return i_; }
  void increment() noexcept { ++i_; }
  void advance(std::ptrdiff_t n) noexcept { i_ += static_cast<int>(n); ++jumps_; }
  std::ptrdiff_t distance_to(both const& o) const noexcept { return o.i_ - i_; }
  int i_{}, jumps_{};
};
int main() {
  both b;
  ++b;
  b++;
  EXPECT(*b == 2 && b.jumps_ == 0);
  b += 3;
  EXPECT(*b == 5 && b.jumps_ == 1);
  return fails != 0;
}
'''),
]
