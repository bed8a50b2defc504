import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from s6 import H, I
S = "src/progress_tracker.cc"
P = "#include <atomic>\n#include <cmath>\n#include <iostream>\n#include <thread>\n" + H("progress_tracker.h", "../../src/progress_tracker.cc")
SEEDS = [
 dict(id="T03-count-lowered", prop="T03", file=S,
      edits=[("  while (old_in < new_in && !in_", "  while (old_in != new_in && !in_")],
      needs="threads that report their progress out of order", breaks="the progress of a monotonic update goes back",
      demo=P + r'''
int main() {
  utl::progress_tracker t{[](utl::progress_tracker const&) {}};
  auto const f = t.update_fn();
  f(40);
  f(70);
  f(50);
  EXPECT(t.in_.load() == 70U);
  EXPECT(t.out_.load() == 70.F);
  return fails != 0;
}
'''),
 dict(id="T03-lost-increment", prop="T03", file=S,
      edits=[("  in_ += inc;", "  in_ = in_ + inc;")],
      needs="two threads that increment at the same time", breaks="increments get lost",
      demo=P + r'''
int main() {
  utl::progress_tracker t{[](utl::progress_tracker const&) {}};
  t.in_high(1U << 30);
  std::vector<std::thread> v;
  for (int k = 0; k < 8; ++k) {
    v.emplace_back([&] { for (int i = 0; i < 200000; ++i) { t.increment(); } });
  }
  for (auto& x : v) { x.join(); }
  EXPECT(t.in_.load() == 8U * 200000U);
  return fails != 0;
}
'''),
 dict(id="T03-change-forgotten", prop="T03", file=S,
      edits=[("  if (old_value != new_value) {\n    old_value = new_value;\n    changed = true;\n  }", "  changed = old_value != new_value;\n  old_value = new_value;")],
      needs="one update that sets several bounds of which the last does not change", breaks="the change is not notified and the progress is not restarted",
      demo=P + r'''
int main() {
  int n = 0;
  utl::progress_tracker t{[&](utl::progress_tracker const&) { ++n; }};
  t.update(60);
  EXPECT(n == 1);
  t.out_bounds(10.F, 100.F);
  EXPECT(n == 2);
  EXPECT(t.in_.load() == 0U);
  EXPECT(t.out_.load() == 10.F);
  return fails != 0;
}
'''),
 dict(id="T03-callback-locked", prop="T03", file=S,
      edits=[("    lock_.unlock();\n    if (status_changed_ || bounds_changed_) {\n      tracker_->callback_(*tracker_);\n    }\n", "    if (status_changed_ || bounds_changed_) {\n      tracker_->callback_(*tracker_);\n    }\n    lock_.unlock();\n")],
      needs="a callback that looks at the tracker (as the registry's print does)", breaks="the callback runs with the tracker locked: looking at it deadlocks",
      demo=P + r'''
int main() {
  bool is_free = true;
  utl::progress_tracker t{[&](utl::progress_tracker const& x) {
    std::thread{[&] {
      is_free = x.mutex_.try_lock();
      if (is_free) { x.mutex_.unlock(); }
    }}.join();
  }};
  t.status("reading");
  EXPECT(is_free);
  return fails != 0;
}
'''),
 dict(id="T03-active-survives", prop="T03", file=S,
      edits=[("  last_print_height_ = 0U;\n  active_tracker_ = nullptr;\n", "  last_print_height_ = 0U;\n  if (active_tracker_.use_count() == 1) {\n    active_tracker_ = nullptr;\n  }\n")],
      needs="somebody still holds the active tracker when the registry is cleared", breaks="clear leaves a tracker active that is no longer registered",
      demo=P + r'''
int main() {
  auto const held = utl::activate_progress_tracker("one");
  utl::get_global_progress_trackers().clear();
  auto const t = utl::get_active_progress_tracker_or_activate("two");
  EXPECT(t != held);
  EXPECT(t == utl::get_global_progress_trackers().get_tracker("two"));
  return fails != 0;
}
'''),
]
