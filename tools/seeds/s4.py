import glob, os
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
AUX = {os.path.relpath(f, V + "/stubs/cista"): open(f).read() for f in glob.glob(V + "/stubs/cista/**/*.h", recursive=True)}
H = r'''
#include <cstdio>
#include <cstdint>
#include <string>
#include <string_view>
#include <tuple>
#include <vector>
#include "utl/parser/arg_parser.h"
#include "utl/parser/csv.h"
static int fails = 0;
#define EXPECT(x) do { if (!(x)) { std::printf("failed: %s\n", #x); ++fails; } } while (0)
'''
A = "include/utl/parser/arg_parser.h"
C = "include/utl/parser/csv.h"
SEEDS = [
 dict(id="P03-escaped-at-end", prop="P03", file=C, aux=AUX,
      edits=[("if (end != Separator && c == end && s.len >= 2 && s.str[1] == end) {", "if (end != Separator && c == end && s.len > 2 && s.str[1] == end) {")],
      needs="an escaped quote as the last two bytes of the text", breaks="the field ends in front of the escaped quote",
      demo=H + r'''
int main() {
  utl::cstr s{"\"a\"\""};
  utl::cstr a;
  utl::parse_column(s, a);
  EXPECT(a.view() == "a\"\"");
  EXPECT(s.len == 0);
  return fails != 0;
}
'''),
 dict(id="P03-last-mapped-column", prop="P03", file=C, aux=AUX,
      edits=[("column_map.rend())));", "column_map.rend())) - 1U);"), ("  for (column_idx_t i = 0; i < last_column_index && s; ++i) {", "  for (column_idx_t i = 0; i <= last_column_index && s; ++i) {")],
      needs="a call of read_row with an explicit last column in front of further columns", breaks="one column more than asked for is read",
      demo=H + r'''
int main() {
  std::array<utl::column_idx_t, utl::MAX_COLUMNS> m;
  m.fill(utl::NO_COLUMN_IDX);
  m[0] = 0; m[1] = 1; m[2] = 0;
  utl::cstr s{"a,b,c\nd"};
  auto const r = utl::read_row<std::tuple<int, int>>(s, m, 2);
  EXPECT(r[0].view() == "a");
  EXPECT(r[1].view() == "b");
  EXPECT(s.view() == "d");
  return fails != 0;
}
'''),
 dict(id="P03-unescape-run", prop="P03", file=C, aux=AUX,
      edits=[("      ++found_at;  // Skip following character (\"), we are now after the \"\"\n", "")],
      needs="more than one escaped quote in a row", breaks="runs of quotes collapse to one",
      demo=H + r'''
int main() {
  std::string s{"a\"\"\"\"b"};
  utl::unescape_quoted_string(s);
  EXPECT(s == "a\"\"b");
  std::string t{"x\"\"y"};
  utl::unescape_quoted_string(t);
  EXPECT(t == "x\"y");
  return fails != 0;
}
'''),
 dict(id="P04-default-kept", prop="P04", file=A, aux=AUX,
      edits=[("  arg = 0;\n  bool value_okay = false;\n", "  arg = default_value;\n  bool value_okay = false;\n"), ("    arg = arg * 10 + static_cast<IntType>(c - '0');\n    value_okay = true;", "    arg = (value_okay ? arg * 10 : arg * 0) + static_cast<IntType>(c - '0');\n    value_okay = value_okay || c != '0';")],
      needs="a number made of zeros only, and a default value", breaks="the default is returned instead of zero",
      demo=H + r'''
int main() {
  EXPECT(utl::parse<int>(utl::cstr{"0"}, 7) == 0);
  EXPECT(utl::parse<int>(utl::cstr{"x"}, 7) == 7);
  EXPECT(utl::parse<int>(utl::cstr{"10"}, 7) == 10);
  return fails != 0;
}
'''),
 dict(id="P04-fraction-sign", prop="P04", file=A, aux=AUX,
      edits=[("  v = static_cast<T>(pre_point);\n  if (s.len == 0) {\n    v *= sign;", "  v = static_cast<T>(pre_point) * sign;\n  if (s.len == 0) {"), ("  if (*s.str != '.') {\n    v *= sign;", "  if (*s.str != '.') {"), ("  v *= sign;\n\n  return is_good;", "  return is_good;")],
      needs="a negative number with a fraction", breaks="the fraction is added instead of subtracted",
      demo=H + r'''
int main() {
  EXPECT(utl::parse<double>(utl::cstr{"-2.5"}) == -2.5);
  EXPECT(utl::parse<double>(utl::cstr{"-2"}) == -2.0);
  EXPECT(utl::parse<double>(utl::cstr{"2.5"}) == 2.5);
  return fails != 0;
}
'''),
 dict(id="P04-sign-only", prop="P04", file=A, aux=AUX,
      edits=[("  if (s && s[0] == '+') {", "  if (s[0] == '+') {")],
      needs="an empty text, or a minus sign at the end of a text that is followed by a plus sign in memory", breaks="the byte behind the text is read and eaten",
      demo=H + r'''
int main() {
  char const t[] = "-+1";
  utl::cstr s{t, std::size_t{1}};
  int v;
  EXPECT(!utl::parse_arg(s, v));
  EXPECT(s.len == 0);
  return fails != 0;
}
'''),
]
