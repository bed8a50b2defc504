# progress_tracker (T03)
S = "src/progress_tracker.cc"
H = "include/utl/progress_tracker.h"
C = dict(checks="t03", file=S)
REFS = [
 dict(id="pt-early-return", **C, edits=[
  ("  if (lock_.owns_lock()) {  // otherwise: moved from\n    if (bounds_changed_) {\n      tracker_->in_ = 0ULL;\n      tracker_->out_ = tracker_->out_low_;\n    }\n    lock_.unlock();\n    if (status_changed_ || bounds_changed_) {\n      tracker_->callback_(*tracker_);\n    }\n  }\n",
   "  if (!lock_.owns_lock()) {\n    return;\n  }\n  auto const notify = status_changed_ || bounds_changed_;\n  if (bounds_changed_) {\n    tracker_->out_ = tracker_->out_low_;\n    tracker_->in_ = 0ULL;\n  }\n  lock_.unlock();\n  if (notify) {\n    tracker_->callback_(*tracker_);\n  }\n")]),
 dict(id="pt-compare-return", **C, edits=[
  ("template <typename T>\nvoid compare_and_update(bool& changed, T& old_value, T const& new_value) {\n  if (old_value != new_value) {\n    old_value = new_value;\n    changed = true;\n  }\n}", 
   "template <typename T>\nvoid compare_and_update(bool& changed, T& old_value, T const& new_value) {\n  auto const differs = !(old_value == new_value);\n  if (differs) {\n    old_value = new_value;\n  }\n  changed = changed || differs;\n}")]),
 dict(id="pt-or-assign", **C, edits=[
  ("  if (old_value != new_value) {\n    old_value = new_value;\n    changed = true;\n  }\n", "  changed |= (old_value != new_value);\n  old_value = new_value;\n")]),
 dict(id="pt-exchange", **C, edits=[
  ("  if (old_value != new_value) {\n    old_value = new_value;\n    changed = true;\n  }\n", "  if (old_value == new_value) {\n    return;\n  }\n  changed = true;\n  old_value = new_value;\n")]),
 dict(id="pt-verify-throw", **C, edits=[
  ("  verify(out_low <= out_high,\n         \"progress_tracker::set_bounds out_low must be lower than out_high\");\n", "  if (out_low > out_high) {\n    throw fail(\"progress_tracker::set_bounds out_low must be lower than out_high\");\n  }\n")]),
 dict(id="pt-high-first", **C, edits=[
  ("  compare_and_update(bounds_changed_, tracker_->out_low_, out_low);\n  compare_and_update(bounds_changed_, tracker_->out_high_, out_high);\n", "  compare_and_update(bounds_changed_, tracker_->out_high_, out_high);\n  compare_and_update(bounds_changed_, tracker_->out_low_, out_low);\n")]),
 dict(id="pt-reset-calls", **C, edits=[
  ("  compare_and_update(bounds_changed_, tracker_->out_low_, 0.F);\n  compare_and_update(bounds_changed_, tracker_->out_high_, 100.F);\n  compare_and_update(bounds_changed_, tracker_->out_mod_, 1.F);\n  compare_and_update<size_t>(bounds_changed_, tracker_->in_high_, 100ULL);\n  return std::move(*this);\n", "  return out_bounds(0.F, 100.F).out_mod(1.F).in_high(100ULL);\n")]),
 dict(id="pt-member-update", **C, edits=[
  ("progress_tracker::tracker_update progress_tracker::in_high(\n    size_t const in_high) {\n  return progress_tracker::tracker_update{this}.in_high(in_high);\n}", "progress_tracker::tracker_update progress_tracker::in_high(\n    size_t const in_high) {\n  auto u = progress_tracker::tracker_update{this};\n  return u.in_high(in_high);\n}")]),
 dict(id="pt-store", **C, edits=[("  in_ = new_in;\n", "  in_.store(new_in);\n")]),
 dict(id="pt-fetch-add", **C, edits=[("  in_ += inc;\n", "  in_.fetch_add(inc);\n")]),
 dict(id="pt-mono-do", **C, edits=[
  ("  size_t old_in = in_;\n  while (old_in < new_in && !in_.compare_exchange_weak(old_in, new_in)) {\n    ;\n  }\n", "  auto old_in = in_.load();\n  while (old_in < new_in) {\n    if (in_.compare_exchange_weak(old_in, new_in)) {\n      break;\n    }\n  }\n")]),
 dict(id="pt-mono-strong", **C, edits=[
  ("  while (old_in < new_in && !in_.compare_exchange_weak(old_in, new_in)) {\n    ;\n  }\n", "  for (; old_in < new_in;) {\n    if (in_.compare_exchange_strong(old_in, new_in)) {\n      break;\n    }\n  }\n")]),
 dict(id="pt-mono-noop", **C, edits=[
  ("  while (old_in < new_in && !in_.compare_exchange_weak(old_in, new_in)) {\n    ;\n  }\n", "  do {\n    if (old_in >= new_in) {\n      break;\n    }\n  } while (!in_.compare_exchange_weak(old_in, new_in));\n")]),
 dict(id="pt-out-unique", **C, edits=[
  ("  auto changed = false;\n  {\n    std::lock_guard<std::mutex> lock{mutex_};\n", "  auto changed = false;\n  {\n    auto const lock = std::scoped_lock{mutex_};\n")]),
 dict(id="pt-out-load-store", **C, edits=[
  ("    auto old_out = out_.exchange(new_out);\n    changed = old_out != new_out;\n", "    auto const old_out = out_.load();\n    out_ = new_out;\n    changed = old_out != new_out;\n")]),
 dict(id="pt-out-store-if", **C, edits=[
  ("    auto old_out = out_.exchange(new_out);\n    changed = old_out != new_out;\n", "    changed = out_.load() != new_out;\n    if (changed) {\n      out_.store(new_out);\n    }\n")]),
 dict(id="pt-out-minmax", **C, edits=[
  ("            : std::clamp(out_low_ + std::round(out_range * in_ratio /\n                                               out_mod_) *\n                                        out_mod_,\n                         out_low_, out_high_);\n", "            : std::min(out_high_,\n                       std::max(out_low_,\n                                out_low_ + std::round(out_range * in_ratio /\n                                                      out_mod_) *\n                                               out_mod_));\n")]),
 dict(id="pt-out-steps", **C, edits=[
  ("    auto const new_out =\n        in_high_ == 0U\n            ? out_high_\n            : std::clamp(out_low_ + std::round(out_range * in_ratio /\n                                               out_mod_) *\n                                        out_mod_,\n                         out_low_, out_high_);\n",
   "    auto new_out = out_high_;\n    if (in_high_ != 0U) {\n      auto const steps = std::round(out_range * in_ratio / out_mod_);\n      new_out = std::clamp(out_low_ + steps * out_mod_, out_low_, out_high_);\n    }\n")]),
 dict(id="pt-out-order", **C, edits=[
  ("    auto const out_range = (out_high_ - out_low_);\n    auto const in_ratio = static_cast<float>(static_cast<double>(in_) /\n                                             static_cast<double>(in_high_));\n", "    auto const in = static_cast<double>(in_.load());\n    auto const in_ratio =\n        static_cast<float>(in / static_cast<double>(in_high_));\n    auto const out_range = out_high_ - out_low_;\n")]),
 dict(id="pt-out-unlock", **C, edits=[
  ("  auto changed = false;\n  {\n    std::lock_guard<std::mutex> lock{mutex_};\n", "  std::unique_lock<std::mutex> lock{mutex_};\n"),
  ("    changed = old_out != new_out;\n  }\n", "    auto const changed = old_out != new_out;\n    lock.unlock();\n")]),
 dict(id="pt-update-lambda", file=H, checks="t03", edits=[
  ("    return [this](size_t new_in) { update_monotonic(new_in); };", "    return [t = this](size_t const n) { t->update_monotonic(n); };"),
  ("    return [this]() { increment(); };", "    return [this]() { this->increment(1U); };")]),
 dict(id="pt-header-braces", file=H, checks="t03", edits=[
  ("  std::atomic_size_t in_{0ULL};\n  std::atomic<float> out_{0.F};\n", "  std::atomic<float> out_{0.F};\n  std::atomic_size_t in_{0ULL};\n")]),
 dict(id="pt-get-try-emplace", **C, edits=[
  ("  auto const it = global.trackers_.find(name);\n  if (it == end(global.trackers_)) {\n    return global.trackers_\n        .emplace(name, std::make_shared<progress_tracker>(\n                           [&global](auto&) { global.print(); }))\n        .first->second;\n  } else {\n    return it->second;\n  }\n",
   "  if (auto const it = global.trackers_.find(name);\n      it != global.trackers_.end()) {\n    return it->second;\n  }\n  auto tracker = std::make_shared<progress_tracker>(\n      [&global](auto&) { global.print(); });\n  global.trackers_.emplace(name, tracker);\n  return tracker;\n")]),
 dict(id="pt-get-index", **C, edits=[
  ("  auto const it = global.trackers_.find(name);\n  if (it == end(global.trackers_)) {\n    return global.trackers_\n        .emplace(name, std::make_shared<progress_tracker>(\n                           [&global](auto&) { global.print(); }))\n        .first->second;\n  } else {\n    return it->second;\n  }\n",
   "  auto& tracker = global.trackers_[name];\n  if (tracker == nullptr) {\n    tracker = std::make_shared<progress_tracker>(\n        [&global](auto&) { global.print(); });\n  }\n  return tracker;\n")]),
 dict(id="pt-get-or-create", **C, edits=[
  ("  auto const it = global.trackers_.find(name);\n  if (it == end(global.trackers_)) {\n    return global.trackers_\n        .emplace(name, std::make_shared<progress_tracker>(\n                           [&global](auto&) { global.print(); }))\n        .first->second;\n  } else {\n    return it->second;\n  }\n",
   "  return get_or_create(global.trackers_, name, [&] {\n    return std::make_shared<progress_tracker>(\n        [&global](auto&) { global.print(); });\n  });\n")]),
 dict(id="pt-silent-load", **C, edits=[("  if (silent_) {\n    return;\n  }\n", "  if (silent_.load()) {\n    return;\n  }\n")]),
 dict(id="pt-print-second", **C, edits=[("  for (auto const& [name, t] : trackers_) {\n    clear_line();\n", "  for (auto const& entry : trackers_) {\n    auto const& name = entry.first;\n    auto const& t = entry.second;\n    clear_line();\n")]),
 dict(id="pt-print-iter", **C, edits=[("  for (auto const& [name, t] : trackers_) {\n    clear_line();\n", "  for (auto it = trackers_.begin(); it != trackers_.end(); ++it) {\n    auto const& [name, t] = *it;\n    clear_line();\n")]),
 dict(id="pt-print-count", **C, edits=[("  for (auto const& [name, t] : trackers_) {\n    clear_line();\n", "  auto lines = 0U;\n  for (auto const& [name, t] : trackers_) {\n    ++lines;\n    clear_line();\n"), ("  last_print_height_ = trackers_.size();\n", "  last_print_height_ = lines;\n")]),
 dict(id="pt-print-out", **C, edits=[("      constexpr auto const WIDTH = 55U;\n", "      constexpr auto const WIDTH = 55U;\n      auto const out = t->out_.load();\n"), ("(scaled <= t->out_ ? BAR", "(scaled <= out ? BAR")]),
 dict(id="pt-clear-order", **C, edits=[("  trackers_.clear();\n  last_print_height_ = 0U;\n  active_tracker_ = nullptr;\n", "  active_tracker_.reset();\n  last_print_height_ = 0U;\n  trackers_.clear();\n")]),
 dict(id="pt-activate-direct", **C, edits=[("  auto tracker = get_tracker_unsafe(global, name);\n  global.active_tracker_ = tracker;\n  return tracker;\n}\n\nprogress_tracker_ptr get_active", "  global.active_tracker_ = get_tracker_unsafe(global, name);\n  return global.active_tracker_;\n}\n\nprogress_tracker_ptr get_active")]),
 dict(id="pt-active-flat", **C, edits=[("  if (global.active_tracker_ != nullptr) {\n    return global.active_tracker_;\n  } else {\n    auto tracker = get_tracker_unsafe(global, name);\n    global.active_tracker_ = tracker;\n    return tracker;\n  }\n", "  if (!global.active_tracker_) {\n    global.active_tracker_ = get_tracker_unsafe(global, name);\n  }\n  return global.active_tracker_;\n")]),
 dict(id="pt-activate-move", **C, edits=[("  global.active_tracker_ = tracker;\n  return tracker;\n}\n\nprogress_tracker_ptr activate_progress_tracker(std", "  global.active_tracker_ = std::move(tracker);\n  return global.active_tracker_;\n}\n\nprogress_tracker_ptr activate_progress_tracker(std")]),
 dict(id="pt-bars-exchange", **C, edits=[("  old_silent_ = gp.silent_;\n  gp.silent_ = silent;\n", "  old_silent_ = gp.silent_.exchange(silent);\n")]),
 dict(id="pt-bars-clear-first", **C, edits=[("  gp.silent_ = old_silent_;\n  gp.clear();\n", "  gp.clear();\n  gp.silent_ = old_silent_;\n")]),
 dict(id="pt-active-throw", **C, edits=[("  verify(global.active_tracker_ != nullptr,\n         \"get_active_progress_tracker: there is no active progress_tracker\");\n  return global.active_tracker_;\n", "  auto const active = global.active_tracker_;\n  verify(active != nullptr,\n         \"get_active_progress_tracker: there is no active progress_tracker\");\n  return active;\n")]),
]
