import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from s6 import H, I
G = I + "generator.h"
GEN = H("generator.h") + r'''
struct alive { alive() { ++n; } ~alive() { --n; } static inline int n = 0; };
static utl::generator<int> ints(int n) { alive a; for (int i = 1; i <= n; ++i) { co_yield i; } }
static utl::generator<int> failing(int n) { alive a; for (int i = 1; i <= n; ++i) { co_yield i; } throw std::runtime_error{"x"}; }
'''
M = H("match.h")
CLS = r'''
struct base { virtual ~base() = default; };
struct one : base {};
struct two : base {};
struct three : two {};
'''
SEEDS = [
 dict(id="R02-peek-skips", prop="R02", file=G,
      edits=[("    if (!full_) {\n      h_();\n", "    if (!full_ || !h_.done()) {\n      h_();\n")],
      needs="a generator of which the end test is asked twice before the value is taken", breaks="the end test drops a value",
      demo=GEN + r'''
int main() {
  auto g = ints(3);
  std::vector<int> v;
  while (g) { if (static_cast<bool>(g)) { v.push_back(g()); } }
  EXPECT((v == std::vector<int>{1, 2, 3}));
  return fails != 0;
}
'''),
 dict(id="R02-late-throw", prop="R02", file=G,
      edits=[("      if (h_.promise().exception_) {\n", "      if (h_.promise().exception_ && !h_.done()) {\n")],
      needs="a coroutine that throws (a test that only yields never does)", breaks="exceptions of the coroutine are swallowed and the sequence just ends",
      demo=GEN + r'''
int main() {
  bool thrown = false;
  int n = 0;
  try { auto g = failing(2); while (g) { g(); ++n; } } catch (std::runtime_error const&) { thrown = true; }
  EXPECT(n == 2);
  EXPECT(thrown);
  EXPECT(alive::n == 0);
  return fails != 0;
}
'''),
 dict(id="R02-yield-steals", prop="R02", file=G,
      edits=[("      value_ = std::forward<From>(from);", "      value_ = std::move(from);")],
      needs="a coroutine that yields a variable which it goes on using", breaks="yielding takes the coroutine's own variable away",
      demo=H("generator.h") + r'''
static utl::generator<std::string> grow() { std::string s(40, 'a'); for (int i = 0; i < 3; ++i) { s += 'b'; co_yield s; } }
int main() {
  auto const v = grow().to_vec();
  EXPECT(v.size() == 3U && v[2] == std::string(40, 'a') + "bbb");
  return fails != 0;
}
'''),
 dict(id="R02-rest-of-vector", prop="R02", file=G,
      edits=[("    auto v = std::vector<T>{};\n", "    auto v = std::vector<T>{};\n    full_ = false;\n")],
      needs="a generator that was asked for its end before all values are collected", breaks="to_vec drops the value that was already fetched",
      demo=GEN + r'''
int main() {
  auto g = ints(3);
  EXPECT(static_cast<bool>(g));
  EXPECT((g.to_vec() == std::vector<int>{1, 2, 3}));
  return fails != 0;
}
'''),
 dict(id="M03-skips-second", prop="M03", file=I + "match.h",
      edits=[("    return match(std::forward<Parent>(p), std::forward<RestFn>(rest_f)...);", "    if constexpr (sizeof...(rest_f) > 1U) {\n      return [&](auto&& second, auto&&... others) {\n        if (dynamic_cast<first_argument<decltype(second)>>(p) != nullptr && sizeof...(others) == 1U) {\n          return match(std::forward<Parent>(p), others..., second);\n        }\n        return match(std::forward<Parent>(p), second, others...);\n      }(rest_f...);\n    } else {\n      return match(std::forward<Parent>(p), std::forward<RestFn>(rest_f)...);\n    }")],
      needs="three functions of which the second and the third match", breaks="a later function runs instead of the first one that matches",
      demo=M + CLS + r'''
int main() {
  three t;
  base* b = &t;
  EXPECT(utl::match(b, [](one*) { return 1; }, [](two*) { return 2; }, [](three*) { return 3; }) == 2);
  return fails != 0;
}
'''),
 dict(id="M03-macro-precedence", prop="M03", file=I + "verify.h",
      edits=[("    if (!(condition)) {                                     \\", "    if (!condition) {                                       \\")],
      needs="a condition with an operator in it that does not have to hold in full", breaks="utl_verify tests only the first operand's negation",
      demo=H("verify.h") + r'''
int main() {
  bool thrown = false;
  bool a = true, b = false;
  try { utl_verify(a && b, "m {}", 1); } catch (std::runtime_error const&) { thrown = true; }
  EXPECT(thrown);
  return fails != 0;
}
'''),
 dict(id="M03-sliced", prop="M03", file=I + "verify.h",
      edits=[("    UTL_UNLIKELY throw ex;", "    UTL_UNLIKELY throw static_cast<std::exception const&>(ex);")],
      needs="a caller that catches the exception it gave by its own type", breaks="verify_ex throws only the base of the exception given",
      demo=H("verify.h") + r'''
int main() {
  bool thrown = false;
  try { utl::verify_ex(false, std::out_of_range{"x"}); } catch (std::out_of_range const&) { thrown = true; } catch (...) {}
  EXPECT(thrown);
  return fails != 0;
}
'''),
 dict(id="M03-unmatched-type", prop="M03", file=I + "overloaded.h",
      edits=[("      (!std::is_same_v<std::decay_t<T>, std::decay_t<first_argument<Ts>>> &&\n       ...)>", "      (!std::is_same_v<T, first_argument<Ts>> && ...)>")],
      needs="an argument that is passed as an lvalue to a function that takes it by value", breaks="the catch-all swallows arguments that have a function of their own",
      demo=H("overloaded.h") + r'''
int main() {
  int got = 0;
  auto o = utl::overloaded{[&](int v) { got = v; }, [&](double) { got = -1; }};
  int x = 5;
  o(x);
  EXPECT(got == 5);
  return fails != 0;
}
'''),
]
