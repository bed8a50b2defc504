import os
Z = r'''
#include <cstdio>
#include <cstdint>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
%s
static int fails = 0;
#define EXPECT(x) do { if (!(x)) { std::printf("failed: %%s\n", #x); ++fails; } } while (0)
'''
def H(*inc):
    return Z % "\n".join('#include "utl/%s"' % i for i in inc)
I = "include/utl/"
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
AUX = {"cista/" + f: open(V + "/stubs/cista/cista/" + f).read() for f in ("containers/string.h", "reflection/for_each_field.h", "reflection/to_tuple.h")}
SEEDS = [
 dict(id="A15-inverse", prop="A15", file=I + "sort_by.h",
      edits=[("    vec[i] = orig[permutation[i]];", "    vec[permutation[i]] = orig[i];")],
      needs="a permutation that is not its own inverse (three or more elements in a cycle)", breaks="the containers are permuted by the inverse permutation",
      demo=H("sort_by.h") + r'''
int main() {
  std::vector<int> a{3, 1, 2};
  std::vector<int> b{30, 10, 20};
  auto [x, y] = utl::sort_by(a, b);
  EXPECT((x == std::vector<int>{1, 2, 3}));
  EXPECT((y == std::vector<int>{10, 20, 30}));
  return fails != 0;
}
'''),
 dict(id="A15-companion-order", prop="A15", file=I + "sort_by.h",
      edits=[("  std::sort(begin(permutation), end(permutation),\n            [&](auto&& a, auto&& b) { return order[a] < order[b]; });\n", ""),
             ("  std::tuple<std::decay_t<SortBy>, std::decay_t<Ts>...> ret{order, ts...};\n",
              "  std::tuple<std::decay_t<SortBy>, std::decay_t<Ts>...> ret{order, ts...};\n  auto const& keys = std::get<0>(ret);\n  std::sort(begin(permutation), end(permutation),\n            [&](auto&& a, auto&& b) { return static_cast<int>(keys[a]) < static_cast<int>(keys[b]); });\n")],
      needs="keys that do not fit an int or differ in their fraction only", breaks="the keys are narrowed before they are compared",
      demo=H("sort_by.h") + r'''
int main() {
  std::vector<double> a{0.9, 0.5, 0.1};
  auto [x] = utl::sort_by(a);
  EXPECT((x == std::vector<double>{0.1, 0.5, 0.9}));
  return fails != 0;
}
'''),
 dict(id="M01-last-argument", prop="M01", file=I + "cmd_line_parser.h", aux=AUX,
      edits=[("    for (auto i = 0; i < argc; ++i) {", "    for (auto i = 0; i + 1 < argc; ++i) {")],
      needs="a switch that is the last argument", breaks="the switch is ignored",
      demo=H("cmd_line_parser.h") + r'''
struct cfg { utl::cmd_line_flag<bool, UTL_SHORT("-c"), UTL_LONG("--capture"), UTL_DESC("x")> c_; utl::cmd_line_flag<int, UTL_LONG("--n"), UTL_DESC("x")> n_; };
int main() {
  char const* args[] = {"./exe", "--n", "8", "-c"};
  auto c = utl::parse_flags<cfg>(4, args);
  EXPECT(c.c_.val());
  EXPECT(c.n_.val() == 8);
  return fails != 0;
}
'''),
 dict(id="M01-first-wins", prop="M01", file=I + "cmd_line_parser.h", aux=AUX,
      edits=[("    for (auto i = 0; i < argc; ++i) {", "    for (auto i = 0; i < argc && !found; ++i) {")],
      needs="a value flag that is given twice", breaks="the first value is kept instead of the last",
      demo=H("cmd_line_parser.h") + r'''
struct cfg { utl::cmd_line_flag<int, UTL_SHORT("-n"), UTL_LONG("--num"), UTL_DESC("x")> n_; };
int main() {
  char const* args[] = {"./exe", "-n", "8", "--num", "9"};
  auto c = utl::parse_flags<cfg>(5, args);
  EXPECT(c.n_.val() == 9);
  return fails != 0;
}
'''),
 dict(id="M01-name-prefix", prop="M01", file=I + "cmd_line_parser.h", aux=AUX,
      edits=[("        if (s == f.long_) {", "        if (s && s.starts_with(f.long_)) {")],
      needs="an argument that starts with the name of a flag", breaks="the longer argument is taken for the flag",
      demo=H("cmd_line_parser.h") + r'''
struct cfg { utl::cmd_line_flag<bool, UTL_LONG("--out"), UTL_DESC("x")> o_; utl::cmd_line_flag<std::string, UTL_LONG("--output"), UTL_DESC("x")> p_; };
int main() {
  char const* args[] = {"./exe", "--output", "f"};
  auto c = utl::parse_flags<cfg>(3, args);
  EXPECT(!c.o_.val());
  EXPECT(c.p_.val() == "f");
  return fails != 0;
}
'''),
 dict(id="M02-null-pointer", prop="M02", file=I + "init_from.h", aux=AUX,
      edits=[("                                          deref_second_same<Target, Src>>) {\n    return std::get<I>(s) != nullptr;",
              "                                          deref_second_same<Target, Src>>) {\n    return I + 1U == std::tuple_size_v<std::decay_t<S>> || std::get<I>(s) != nullptr;")],
      needs="a null pointer as last member of the source, needed by a reference", breaks="a reference is bound to a null pointer",
      demo=H("init_from.h") + r'''
struct src { int v_; std::unique_ptr<float> p_; };
struct tgt { int& v_; float& p_; };
int main() {
  src s{1, nullptr};
  EXPECT(!utl::init_from<tgt>(s).has_value());
  return fails != 0;
}
'''),
 dict(id="M02-arity-order", prop="M02", file=I + "init_from.h", aux=AUX,
      edits=[("    return std::tie(p1, p2, p3, p4, p5, p6, p7, p8, p9, p10);", "    return std::tie(p1, p2, p3, p4, p5, p6, p7, p8, p10, p9);")],
      needs="a target or source struct with ten members", breaks="the last two members are exchanged",
      demo=H("init_from.h") + r'''
template <int I> struct d { int v_; };
struct src { d<0> a; d<1> b; d<2> c; d<3> e; d<4> f; d<5> g; d<6> h; d<7> i; int x; int y; };
struct tgt { int& v; };
int main() {
  src s{};
  s.x = 1;
  s.y = 2;
  auto r = utl::init_from<tgt>(s);
  EXPECT(r.has_value() && &r->v == &s.x);
  return fails != 0;
}
'''),
]
