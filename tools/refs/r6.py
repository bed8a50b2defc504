"""refactorings: logging, timers (L01), init_from (M02), sort_by (A15)"""
L = "include/utl/logging.h"
T = "src/timer.cc"
M = "include/utl/timing.h"
STOP = '''  using namespace std::chrono;
  auto stop = steady_clock::now();
  double t =
      static_cast<double>(duration_cast<microseconds>(stop - start_).count()) /
      1000.0;
'''
CSTOP = STOP.replace("  auto stop", "  auto const stop").replace("  double t", "  double const t")
HELP = '''namespace utl {

namespace {

double elapsed_ms(std::chrono::time_point<std::chrono::steady_clock> const from) {
  %s
}

}  // namespace
'''


def helper(body):
    return [("namespace utl {\n", HELP % body), (STOP, "  auto const t = elapsed_ms(start_);\n"), (STOP, "  auto const t = elapsed_ms(start_);\n"), (CSTOP, "  auto const t = elapsed_ms(start_);\n"), (CSTOP, "  auto const t = elapsed_ms(start_);\n")]


REFS = [
 dict(id="log-newline-flush", checks="l01", file=L, edits=[("std::clog << std::endl;", "std::clog << '\\n' << std::flush;")]),
 dict(id="log-newline-member", checks="l01", file=L, edits=[("std::clog << std::endl;", "std::clog.put('\\n');\n    std::clog.flush();")]),
 dict(id="log-member-stream", checks="l01", file=L, edits=[("    std::clog << std::forward<T&&>(t);\n", "    auto& out = std::clog;\n    out << std::forward<T&&>(t);\n")]),
 dict(id="log-forward", checks="l01", file=L, edits=[("std::forward<T&&>(t)", "std::forward<T>(t)")]),
 dict(id="log-time-null", checks="l01", file=L, edits=[("  time_t now;\n  std::time(&now);\n  return time(now);", "  return time(std::time(nullptr));")]),
 dict(id="log-time-chrono", checks="l01", file=L, edits=[("  time_t now;\n  std::time(&now);\n  return time(now);", "  using clock = std::chrono::system_clock;\n  return time(clock::to_time_t(clock::now()));")]),
 dict(id="log-buf-64", checks="l01", file=L, edits=[("char buf[sizeof \"2011-10-08t07:07:09z-0430\"];", "char buf[64];")]),
 dict(id="log-written", checks="l01", file=L, edits=[("return {buf, strftime(buf, sizeof buf, \"%FT%TZ%z\", &result)};", "auto const written =\n      std::strftime(buf, sizeof buf, \"%Y-%m-%dT%H:%M:%SZ%z\", &result);\n  return std::string{buf, written};")]),
 dict(id="log-string-resize", checks="l01", file=L, edits=[("return {buf, strftime(buf, sizeof buf, \"%FT%TZ%z\", &result)};", "if (auto const n = strftime(buf, sizeof buf, \"%FT%TZ%z\", &result); n != 0U) {\n    return std::string(buf, n);\n  }\n  return {};")]),
 dict(id="log-file-function", checks="l01 b01", file=L, edits=[("#define FILE_NAME \\\n  (strrchr(__FILE__, '/') ? strrchr(__FILE__, '/') + 1 : __FILE__)", "inline char const* utl_base_name(char const* path) {\n  auto const slash = strrchr(path, '/');\n  return slash == nullptr ? path : slash + 1;\n}\n#define FILE_NAME (utl_base_name(__FILE__))")]),
 dict(id="log-file-loop", checks="l01 b01", file=L, edits=[("#define FILE_NAME \\\n  (strrchr(__FILE__, '/') ? strrchr(__FILE__, '/') + 1 : __FILE__)", "constexpr char const* utl_base_name(char const* path) {\n  auto last = path;\n  for (auto p = path; *p != '\\0'; ++p) {\n    if (*p == '/') {\n      last = p + 1;\n    }\n  }\n  return last;\n}\n#define FILE_NAME (utl_base_name(__FILE__))")]),
 dict(id="log-one-literal", checks="l01", file=L, edits=[('"[" << utl::log::str[lvl] << "]"           \\\n             << "[" << utl::time() << "]"                  \\\n             << "["', '"[" << utl::log::str[lvl] << "]["          \\\n             << utl::time() << "]["                        \\\n           ')]),
 dict(id="timer-helper", checks="l01", file=T, edits=helper("using namespace std::chrono;\n  auto const us = duration_cast<microseconds>(steady_clock::now() - from);\n  return static_cast<double>(us.count()) / 1000.0;")),
 dict(id="timer-fp-duration", checks="l01", file=T, edits=helper("return std::chrono::duration<double, std::milli>{std::chrono::steady_clock::now() - from}.count();")),
 dict(id="timer-mul", checks="l01", file=T, edits=helper("using namespace std::chrono;\n  return static_cast<double>(duration_cast<microseconds>(steady_clock::now() - from).count()) * 1e-3;")),
 dict(id="timer-finish-by-print", checks="l01", file=T, edits=[(STOP + '  uLOG(info) << "[" << name_ << "] finished"\n             << " (" << t << "ms)";\n', '  print("finished");\n')]),
 dict(id="timer-body-init", checks="l01", file=T, edits=[("    : name_{std::move(name)}, start_{std::chrono::steady_clock::now()} {\n", "    : name_{std::move(name)} {\n  start_ = std::chrono::steady_clock::now();\n")]),
 dict(id="timer-one-literal", checks="l01", file=T, edits=[('"] finished"\n             << " ("', '"] finished ("'), ('"] finished"\n             << " ("', '"] finished ("')]),
 dict(id="timer-log-helper", checks="l01", file=T, edits=[("namespace utl {\n", "namespace utl {\n\nstatic void log_start(std::string const& name) {\n  uLOG(info) << '[' << name << \"] starting\";\n}\n"), ('  uLOG(info) << "[" << name_ << "] starting";', "  log_start(name_);"), ('  uLOG(info) << "[" << name_ << "] starting";', "  log_start(name_);")]),
 dict(id="timing-by-other", checks="l01", file=M, edits=[("#define UTL_GET_TIMING_MS(_X)                             \\\n  (std::chrono::duration_cast<std::chrono::milliseconds>( \\\n       std::chrono::steady_clock::now() - _X##_start)     \\\n       .count())", "#define UTL_GET_TIMING_MS(_X) (UTL_GET_TIMING_US(_X) / 1000)")]),
]
