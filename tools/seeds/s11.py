I = "include/utl/"
H = '''#include <cstdio>
#include <sstream>
#include <stdexcept>
#include <thread>
#include "utl/logging.h"
#include "utl/timer.h"
static int fails = 0;
#define EXPECT(c) do { if (!(c)) { std::fprintf(stderr, "line %d: %s\\n", __LINE__, #c); ++fails; } } while (0)
struct capture {
  capture() : old_{std::clog.rdbuf(out_.rdbuf())} {}
  ~capture() { std::clog.rdbuf(old_); }
  std::string str() const { return out_.str(); }
  std::ostringstream out_;
  std::streambuf* old_;
};
static long count(std::string const& s, std::string const& what) {
  long n = 0;
  for (auto p = s.find(what); p != std::string::npos; p = s.find(what, p + 1)) { ++n; }
  return n;
}
'''
SEEDS = [
 dict(id="L01-unwinding", prop="L01", file="src/timer.cc", srcs="src/timer.cc",
      edits=[("scoped_timer::~scoped_timer() {\n", "scoped_timer::~scoped_timer() {\n  if (std::uncaught_exceptions() != 0) {\n    return;\n  }\n")],
      needs="a timed scope that is left by an exception", breaks="the end of the scope is not logged",
      demo=H + r'''
int main() {
  capture c;
  try { utl::scoped_timer t{"a"}; throw std::runtime_error{"x"}; } catch (std::runtime_error const&) {}
  EXPECT(count(c.str(), "[a] finished") == 1);
  return fails != 0;
}
'''),
 dict(id="L01-open-line", prop="L01", file=I + "logging.h",
      edits=[("  ~log() { std::clog << std::endl; }", "  ~log() {\n    if (std::uncaught_exceptions() == 0) {\n      std::clog << std::endl;\n    }\n  }")],
      needs="a log statement that runs while an exception unwinds the stack", breaks="its line is not ended and the next statement is glued to it",
      demo=H + r'''
struct guard { ~guard() { uLOG(utl::warn) << "undone"; } };
int main() {
  capture c;
  try { guard g; throw std::runtime_error{"x"}; } catch (std::runtime_error const&) {}
  uLOG(utl::info) << "next";
  EXPECT(count(c.str(), "\n") == 2);
  return fails != 0;
}
'''),
 dict(id="L01-other-clock", prop="L01", file=I + "timing.h",
      edits=[("#define UTL_TIMING_US(_X)                                            \\\n  (std::chrono::duration_cast<std::chrono::microseconds>(_X##_stop - \\\n                                                         _X##_start) \\\n       .count())", "#define UTL_TIMING_US(_X)                                            \\\n  (std::chrono::duration_cast<std::chrono::milliseconds>(_X##_stop - \\\n                                                         _X##_start) \\\n       .count() * 1000)")],
      needs="a span that is not a whole number of milliseconds", breaks="microseconds are cut to milliseconds",
      demo='#include "utl/timing.h"\n#include <cstdlib>\nint main() {\n  std::chrono::steady_clock::time_point a_start{}, a_stop{std::chrono::microseconds{1999}};\n  return UTL_TIMING_US(a) == 1999 ? 0 : 1;\n}\n'),
 dict(id="L01-stale-stamp", prop="L01", file=I + "logging.h",
      edits=[("  time_t now;\n  std::time(&now);\n  return time(now);", "  static time_t now = 0;\n  if (now == 0) {\n    std::time(&now);\n  }\n  return time(now);")],
      needs="two log statements more than a second apart", breaks="every line carries the time of the first",
      demo=H + r'''
int main() {
  auto const a = utl::time();
  std::this_thread::sleep_for(std::chrono::milliseconds{2100});
  EXPECT(a != utl::time());
  return fails != 0;
}
'''),
 dict(id="L01-level-order", prop="L01", file=I + "logging.h",
      edits=[("enum log_level { emrg, alrt, crit, err, warn, notice, info, debug };", "enum log_level { emrg, alrt, crit, err, notice, warn, info, debug };")],
      needs="a statement of one of the two levels that changed places", breaks="warnings are logged as notes",
      demo=H + r'''
int main() {
  capture c;
  uLOG(utl::warn) << "x";
  EXPECT(c.str().starts_with("[warn]["));
  return fails != 0;
}
'''),
]
