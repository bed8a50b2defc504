HDR = r'''
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
'''
SEEDS = [
 dict(id="T01-notify-one", prop="T01", file="include/utl/thread_pool.h",
      edits=[("            --threads_active_;\n            cv_.notify_all();", "            --threads_active_;\n            cv_.notify_one();")],
      needs="the single wake-up going to another idle worker instead of the caller of execute", breaks="execute sleeps forever although all jobs are done",
      demo=HDR + r'''
#include "utl/thread_pool.h"
int main() {
  std::atomic<int> progress{0};
  std::thread([&] {
    int last = -1;
    for (;;) {
      std::this_thread::sleep_for(std::chrono::seconds(10));
      if (progress == last) { std::puts("execute hangs"); std::_Exit(1); }
      last = progress;
    }
  }).detach();
  utl::thread_pool p;
  for (int i = 0; i != 3000; ++i) { p.execute(64, [](std::size_t) {}); ++progress; }
  std::_Exit(0);
}
'''),
 dict(id="T01-early-return", prop="T01", file="include/utl/thread_pool.h",
      edits=[("    cv_.wait(lk,\n             [&] { return threads_active_ == 0 && counter_ >= job_count_; });",
              "    cv_.wait(lk, [&] {\n      return counter_ >= job_count_ + threads_active_ || threads_active_ == 0;\n    });")],
      needs="the caller looking before any worker has woken up, or a slow last job", breaks="execute returns while jobs are pending or running",
      demo=HDR + r'''
#include "utl/thread_pool.h"
int main() {
  utl::thread_pool p;
  for (int r = 0; r != 50; ++r) {
    std::atomic<int> n{0};
    p.execute(40, [&](std::size_t) { std::this_thread::sleep_for(std::chrono::microseconds(200)); ++n; });
    int const seen = n;
    if (seen != 40) { std::printf("%d of 40\n", seen); std::_Exit(1); }
  }
  std::_Exit(0);
}
'''),
 dict(id="T01-stale-function", prop="T01", file="include/utl/thread_pool.h",
      edits=[("      fn_ = fn;\n", "      if (job_count_ >= 1U && !fn_) {\n        fn_ = fn;\n      }\n")],
      needs="a second execute on the same pool", breaks="the jobs of the second execute run the function of the first",
      demo=HDR + r'''
#include "utl/thread_pool.h"
int main() {
  utl::thread_pool p;
  static std::atomic<int> a{0}, b{0};
  p.execute(10, [](std::size_t) { ++a; });
  p.execute(10, [](std::size_t) { ++b; });
  std::_Exit(a == 10 && b == 10 ? 0 : 1);
}
'''),
 dict(id="T02-stop-continue", prop="T02", file="include/utl/parallel_for.h",
      edits=[("          if (err_strat == parallel_error_strategy::QUIT_EXEC) {\n", "          if (err_strat == parallel_error_strategy::QUIT_EXEC ||\n              errors.size() > 16U) {\n")],
      needs="CONTINUE_EXEC with more than 16 failing jobs", breaks="the remaining jobs are left out although the strategy is to continue",
      demo=HDR + r'''
#include "utl/parallel_for.h"
struct tl {};
int main() {
  std::atomic<int> n{0};
  auto const e = utl::parallel_for_run_threadlocal<tl>(4000, [&](tl&, std::size_t) { ++n; throw std::runtime_error("x"); }, utl::noop_progress_update{}, utl::parallel_error_strategy::CONTINUE_EXEC);
  return n == 4000 && e.size() == 4000 ? 0 : 1;
}
'''),
 dict(id="T02-progress-throws", prop="T02", file="include/utl/parallel_for.h",
      files={"include/utl/parallel_for.h": [("          func(idx);\n          progress_update(idx);\n        } catch (...) {", "          func(idx);\n        } catch (...) {"),
             ("            quit = true;\n            break;\n          }\n        }\n      }\n    });\n  }\n\n  std::for_each(begin(threads), end(threads), [](auto& t) { t.join(); });\n\n  if (err_strat == parallel_error_strategy::QUIT_EXEC && !errors.empty()) {\n    std::rethrow_exception(errors.front().second);\n  }\n\n  return errors;\n}\n\ntemplate <typename Container",
              "            quit = true;\n            break;\n          }\n          continue;\n        }\n        progress_update(idx);\n      }\n    });\n  }\n\n  std::for_each(begin(threads), end(threads), [](auto& t) { t.join(); });\n\n  if (err_strat == parallel_error_strategy::QUIT_EXEC && !errors.empty()) {\n    std::rethrow_exception(errors.front().second);\n  }\n\n  return errors;\n}\n\ntemplate <typename Container")]},
      needs="a progress function that throws", breaks="the exception leaves the thread function and the program is terminated instead of the failure being rethrown",
      demo=HDR + r'''
#include "utl/parallel_for.h"
int main() {
  try {
    utl::parallel_for_run(100, [](std::size_t) {}, [](std::size_t i) { if (i == 50) throw std::runtime_error("p"); });
  } catch (std::runtime_error const&) { return 0; }
  return 1;
}
'''),
]
