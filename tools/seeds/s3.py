H = r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <string_view>
#include <vector>
#include "utl/parser/cstr.h"
#include "utl/parser/buf_reader.h"
static int fails = 0;
#define EXPECT(x) do { if (!(x)) { std::printf("failed: %s\n", #x); ++fails; } } while (0)
'''
SEEDS = [
 dict(id="P01-get-until-sentinel", prop="P01", file="include/utl/parser/cstr.h",
      edits=[("  auto end = static_cast<char const*>(std::memchr(s.str, delimiter, s.len));\n  if (end == nullptr) {",
              "  auto end = std::strchr(s.str, delimiter);\n  if (end == nullptr || end > s.str + s.len) {")],
      needs="a view directly followed by the delimiter's absence up to a NUL, or a NUL byte before the delimiter", breaks="get_until looks at bytes behind the view and does not look behind a NUL byte",
      demo=H + r'''
int main() {
  char const t[] = {'a', '\0', 'b', ';', 'c'};
  EXPECT(utl::get_until(utl::cstr{t, std::size_t{5}}, ';').len == 3);
  return fails != 0;
}
'''),
 dict(id="P01-trim-back", prop="P01", file="include/utl/parser/cstr.h",
      edits=[("    while (copy.len != 0 && is_space(copy.str[copy.len - 1])) {\n      --copy.len;", "    while (copy.len > 1 && is_space(copy.str[copy.len - 1])) {\n      --copy.len;")],
      needs="skip_whitespace_back on a view of white space only", breaks="one space survives",
      demo=H + r'''
int main() {
  EXPECT(utl::cstr{"  "}.skip_whitespace_back().len == 0);
  EXPECT(utl::cstr{"ab  "}.skip_whitespace_back().len == 2);
  return fails != 0;
}
'''),
 dict(id="P01-prefix-len", prop="P01", file="include/utl/parser/cstr.h",
      edits=[("    for (size_t i = 0; i < len; ++i) {\n      if (substr(i).starts_with(needle)) {", "    for (size_t i = 0; i + needle.len < len; ++i) {\n      if (substr(i).starts_with(needle)) {")],
      needs="the only occurrence being at the very end of the text", breaks="substr_offset does not find it",
      demo=H + r'''
int main() {
  EXPECT(utl::cstr{"hello"}.substr_offset("lo") == 3);
  EXPECT(utl::cstr{"hello"}.substr_offset("ell") == 1);
  return fails != 0;
}
'''),
 dict(id="P02-break-late", prop="P02", file="include/utl/parser/cstr.h",
      edits=[("    if (f(token) == continue_t::kBreak) {\n      break;\n    }\n    s += token.len;", "    if (f(token) == continue_t::kBreak && token.len != 0) {\n      break;\n    }\n    s += token.len;")],
      needs="the callback breaking on an empty token", breaks="the iteration goes on after the break",
      demo=H + r'''
int main() {
  int n = 0;
  utl::for_each_token(utl::cstr{"a,,b"}, ',', [&](utl::cstr t) { ++n; return t.len == 0 ? utl::continue_t::kBreak : utl::continue_t::kContinue; });
  EXPECT(n == 2);
  return fails != 0;
}
'''),
 dict(id="P02-reader-empty-line", prop="P02", file="include/utl/parser/buf_reader.h",
      edits=[("      it_ = nl;\n      ++it_;\n", "      it_ = nl;\n      while (it_ != last && *it_ == '\\n') {\n        ++it_;\n      }\n")],
      needs="an empty line in the buffer", breaks="empty lines are swallowed",
      demo=H + r'''
int main() {
  std::string const s = "a\n\nb\n";
  auto r = utl::make_buf_reader(utl::cstr{s}, utl::noop_progress_consumer{});
  EXPECT(r.read_line().view() == "a");
  EXPECT(r.read_line().view() == "");
  EXPECT(r.read_line().view() == "b");
  return fails != 0;
}
'''),
]
