# generators (R02), verify / match (M03)
I = "include/utl/"
G = dict(checks="r02", file=I + "generator.h")
M = dict(checks="m03", file=I + "match.h")
V = dict(checks="m03", file=I + "verify.h")
O = dict(checks="m03", file=I + "overloaded.h")
REFS = [
 dict(id="gen-bool-flat", **G, edits=[("    if (h_.done()) {\n      return false;\n    }\n    fill();\n    return !h_.done();\n", "    if (!h_.done()) {\n      fill();\n    }\n    return !h_.done();\n")]),
 dict(id="gen-fill-early", **G, edits=[("    if (!full_) {\n      h_();\n      if (h_.promise().exception_) {\n        std::rethrow_exception(h_.promise().exception_);\n      }\n      full_ = true;\n    }\n", "    if (full_) {\n      return;\n    }\n    h_.resume();\n    auto& p = h_.promise();\n    if (p.exception_ != nullptr) {\n      std::rethrow_exception(p.exception_);\n    }\n    full_ = true;\n")]),
 dict(id="gen-fill-full-first", **G, edits=[("      h_();\n      if (h_.promise().exception_) {", "      h_();\n      full_ = true;\n      if (h_.promise().exception_) {"), ("      }\n      full_ = true;\n    }\n", "      }\n    }\n")]),
 dict(id="gen-take-local", **G, edits=[("    fill();\n    full_ = false;\n    return std::move(h_.promise().value_);\n", "    fill();\n    auto v = std::move(h_.promise().value_);\n    full_ = false;\n    return v;\n")]),
 dict(id="gen-exchange-full", **G, edits=[("    fill();\n    full_ = false;\n", "    if (!std::exchange(full_, false)) {\n      fill();\n      full_ = false;\n    }\n")]),
 dict(id="gen-to-vec-push", **G, edits=[("    while ((*this)) {\n      v.emplace_back((*this)());\n    }\n", "    for (; static_cast<bool>(*this);) {\n      v.push_back((*this)());\n    }\n")]),
 dict(id="gen-to-vec-direct", **G, edits=[("    while ((*this)) {\n      v.emplace_back((*this)());\n    }\n", "    auto& self = *this;\n    while (self) {\n      full_ = false;\n      v.emplace_back(std::move(h_.promise().value_));\n    }\n")]),
 dict(id="gen-move-swap", **G, edits=[("      : h_{std::exchange(o.h_, nullptr)},\n        full_{std::exchange(o.full_, false)} {}", "      : h_{nullptr} {\n    swap(o);\n  }\n  void swap(generator& o) noexcept {\n    std::swap(h_, o.h_);\n    std::swap(full_, o.full_);\n  }")]),
 dict(id="gen-assign-destroy", **G, edits=[("    std::swap(h_, o.h_);\n    std::swap(full_, o.full_);\n    return *this;\n", "    if (this != &o) {\n      if (h_) {\n        h_.destroy();\n      }\n      h_ = std::exchange(o.h_, nullptr);\n      full_ = std::exchange(o.full_, false);\n    }\n    return *this;\n")]),
 dict(id="gen-dtor-null", **G, edits=[("    if (h_) {\n      h_.destroy();\n    }\n  }\n\n  explicit", "    if (h_ != nullptr) {\n      h_.destroy();\n      h_ = nullptr;\n    }\n  }\n\n  explicit")]),
 dict(id="gen-final-body", **G, edits=[("    void return_void() {}\n", "    void return_void() noexcept {}\n"), ("    std::suspend_always initial_suspend() { return {}; }", "    std::suspend_always initial_suspend() const noexcept { return {}; }")]),
 dict(id="gen-promise-ref", **G, edits=[("    return std::move(h_.promise().value_);\n", "    auto& promise = h_.promise();\n    return std::move(promise.value_);\n")]),
 dict(id="match-nullptr", **M, edits=[("  if (auto const casted = dynamic_cast<first_argument<Fn>>(p);\n      casted != nullptr) {\n    return f(casted);\n  } else {\n    return match", "  auto const casted = dynamic_cast<first_argument<Fn>>(p);\n  if (casted) {\n    return f(casted);\n  } else {\n    return match")]),
 dict(id="match-early", **M, edits=[("      casted != nullptr) {\n    return f(casted);\n  } else {\n    throw std::runtime_error{\"no matching class found\"};\n  }\n", "      casted == nullptr) {\n    throw std::runtime_error{\"no matching class found\"};\n  } else {\n    return f(casted);\n  }\n")]),
 dict(id="match-one-fn", **M, edits=[
  ("template <typename Parent, typename Fn>\nauto match(Parent&& p, Fn&& f) {\n  if (auto const casted = dynamic_cast<first_argument<Fn>>(p);\n      casted != nullptr) {\n    return f(casted);\n  } else {\n    throw std::runtime_error{\"no matching class found\"};\n  }\n}\n\n", ""),
  ("  } else {\n    return match(std::forward<Parent>(p), std::forward<RestFn>(rest_f)...);\n  }", "  }\n  if constexpr (sizeof...(rest_f) != 0U) {\n    return match(std::forward<Parent>(p), std::forward<RestFn>(rest_f)...);\n  } else {\n    throw std::runtime_error{\"no matching class found\"};\n  }")]),
 dict(id="match-noforward", **M, edits=[("match(std::forward<Parent>(p), std::forward<RestFn>(rest_f)...);", "match(p, std::forward<RestFn>(rest_f)...);")]),
 dict(id="verify-return", **V, edits=[("  if (!condition) {\n    UTL_UNLIKELY throw fail(msg, std::forward<FmtArgs>(args)...);\n  }\n", "  if (condition) {\n    return;\n  }\n  throw fail(msg, std::forward<FmtArgs>(args)...);\n")]),
 dict(id="verify-local", **V, edits=[("  if (!condition) {\n    UTL_UNLIKELY throw fail(msg, std::forward<FmtArgs>(args)...);\n  }\n", "  if (!condition) {\n    auto const ex = fail(msg, std::forward<FmtArgs>(args)...);\n    throw ex;\n  }\n")]),
 dict(id="fail-once", **V, edits=[
  ("  fmt::print(std::clog, fmt::runtime(msg), std::forward<FmtArgs>(args)...);\n  fmt::print(std::clog, \"\\n\");\n\n  return std::runtime_error{\n      fmt::format(fmt::runtime(msg), std::forward<FmtArgs>(args)...)};\n", "  auto const text = fmt::format(fmt::runtime(msg), std::forward<FmtArgs>(args)...);\n  fmt::print(std::clog, \"{}\\n\", text);\n\n  return std::runtime_error{text};\n")]),
 dict(id="fail-noforward", **V, edits=[("  return std::runtime_error{\n      fmt::format(fmt::runtime(msg), std::forward<FmtArgs>(args)...)};\n", "  auto text = fmt::format(fmt::runtime(msg), args...);\n  return std::runtime_error{std::move(text)};\n")]),
 dict(id="verify-ex-forward", **V, edits=[("    UTL_UNLIKELY throw ex;\n", "    UTL_UNLIKELY throw std::forward<Exception>(ex);\n")]),
 dict(id="verify-silent-local", **V, edits=[("    UTL_UNLIKELY throw std::runtime_error{\n        fmt::format(msg, std::forward<FmtArgs>(args)...)};\n", "    auto const text = fmt::format(msg, std::forward<FmtArgs>(args)...);\n    throw std::runtime_error{text};\n")]),
 dict(id="verify-macro-bool", **V, edits=[("    if (!(condition)) {                                     \\\n", "    if (static_cast<bool>(condition) == false) {            \\\n")]),
 dict(id="overloaded-requires", **O, edits=[("  template <typename T>\n  std::enable_if_t<\n      (!std::is_same_v<std::decay_t<T>, std::decay_t<first_argument<Ts>>> &&\n       ...)>\n  operator()(T&&) {}\n", "  template <typename T>\n    requires(\n        !std::is_same_v<std::decay_t<T>, std::decay_t<first_argument<Ts>>> &&\n        ...)\n  void operator()(T&&) {}\n")]),
 dict(id="overloaded-or", **O, edits=[("      (!std::is_same_v<std::decay_t<T>, std::decay_t<first_argument<Ts>>> &&\n       ...)>", "      !(std::is_same_v<std::decay_t<T>, std::decay_t<first_argument<Ts>>> ||\n        ...)>")]),
]
