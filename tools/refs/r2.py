I = "include/utl/"
INC = lambda h: ("#pragma once", "#pragma once\n#include <%s>" % h)
WH = "    while (r.valid(it)) {\n"
def forl(body_old, body_new):
    return body_old, body_new
REFS = [
 # pipes
 dict(id="pipe-accumulate-for", checks="a08", file=I+"pipes/accumulate.h", edits=[
  ("    auto it = r.begin();\n    while (r.valid(it)) {\n      f.acc_ = f.fn_(std::forward<Acc>(f.acc_), r.read(it));\n      r.next(it);\n    }\n    return f.acc_;",
   "    for (auto it = r.begin(); r.valid(it); r.next(it)) {\n      auto&& value = r.read(it);\n      f.acc_ = f.fn_(std::forward<Acc>(f.acc_), std::forward<decltype(value)>(value));\n    }\n    return f.acc_;")]),
 dict(id="pipe-count-if", checks="a08", file=I+"pipes/count.h", edits=[
  ("      f.count_ += (f.fn_(r.read(it)) ? 1 : 0);\n", "      if (f.fn_(r.read(it))) {\n        ++f.count_;\n      }\n")]),
 dict(id="pipe-count-local", checks="a08", file=I+"pipes/count.h", edits=[
  ("    auto it = r.begin();\n", "    auto it = r.begin();\n    auto n = f.count_;\n"), ("f.count_ += (f.fn_", "n += (f.fn_"), ("    return f.count_;", "    return n;")]),
 dict(id="pipe-find-read-once", checks="a08", file=I+"pipes/find.h", edits=[
  ("    while (r.valid(it)) {\n      if (f.fn_(r.read(it))) {\n        return std::make_optional<value_t>(r.read(it));\n      }\n      r.next(it);\n    }\n    return std::optional<value_t>();",
   "    std::optional<value_t> result;\n    for (; r.valid(it); r.next(it)) {\n      if (f.fn_(r.read(it))) {\n        result.emplace(r.read(it));\n        break;\n      }\n    }\n    return result;")]),
 dict(id="pipe-max-if", checks="a08", file=I+"pipes/max.h", edits=[
  ("      f.max_ = std::max(f.max_, r.read(it));\n", "      MaxType const v = r.read(it);\n      if (f.max_ < v) {\n        f.max_ = v;\n      }\n")]),
 dict(id="pipe-remove-if-loop", checks="a08", file=I+"pipes/remove_if.h", edits=[
  ("    while (this->valid(it) && remove_if_.fn_(this->read(it))) {\n      parent_t::next(it);\n    }", "    for (;;) {\n      if (!this->valid(it)) {\n        return;\n      }\n      if (!remove_if_.fn_(this->read(it))) {\n        return;\n      }\n      parent_t::next(it);\n    }")]),
 dict(id="pipe-remove-if-next", checks="a08", file=I+"pipes/remove_if.h", edits=[
  ("    parent_t::next(it);\n    find(it);\n", "    do {\n      parent_t::next(it);\n    } while (this->valid(it) && remove_if_.fn_(this->read(it)));\n")]),
 dict(id="pipe-take-while-if", checks="a08", file=I+"pipes/take_while.h", edits=[
  ("    return parent_t::valid(it) && take_while_.fn_(this->read(it));", "    if (!parent_t::valid(it)) {\n      return false;\n    }\n    return static_cast<bool>(take_while_.fn_(this->read(it)));")]),
 dict(id="pipe-unique-next", checks="a08", file=I+"pipes/unique.h", edits=[
  ("    parent_t::next(it);\n    find(it);\n", "    for (parent_t::next(it); this->valid(it); parent_t::next(it)) {\n      if (!(parent_t::read(it) == pred_)) {\n        pred_ = parent_t::read(it);\n        break;\n      }\n    }\n")]),
 dict(id="pipe-vec-for", checks="a08", file=I+"pipes/vec.h", edits=[
  ("    while (r.valid(it)) {\n      v.emplace_back(r.read(it));\n      r.next(it);\n    }", "    for (; r.valid(it); r.next(it)) {\n      v.push_back(r.read(it));\n    }")]),
 dict(id="pipe-to-insert", checks="a08", file=I+"pipes/vec.h", edits=[
  ("      c.emplace(r.read(it));", "      c.insert(r.read(it));")]),
 dict(id="pipe-avg-hoist", checks="a08", file=I+"pipes/avg.h", edits=[
  ("      sum += static_cast<double>(r.read(it));\n      ++count;\n", "      ++count;\n      sum = sum + static_cast<double>(r.read(it));\n")]),
 dict(id="pipe-sum-plain", checks="a08", file=I+"pipes/sum.h", edits=[
  ("      f.acc_ += r.read(it);", "      f.acc_ = f.acc_ + r.read(it);")]),
 dict(id="pipe-transform-ref", checks="a08", file=I+"pipes/transform.h", edits=[
  ("    return transform_.fn_(parent_t::read(it));", "    auto&& v = parent_t::read(it);\n    return transform_.fn_(std::forward<decltype(v)>(v));")]),
 dict(id="pipe-for-each-for", checks="a08", file=I+"pipes/for_each.h", edits=[
  ("    auto it = r.begin();\n    while (r.valid(it)) {\n      f.fn_(r.read(it));\n      r.next(it);\n    }", "    for (auto it = r.begin(); r.valid(it); r.next(it)) {\n      f.fn_(r.read(it));\n    }")]),
 dict(id="pipe-all-holding-valid", checks="a08", file=I+"pipes/all.h", edits=[
  ("    return it != end();", "    return !(it == c_.end());")]),
 # zip / enumerate: whichever check
 dict(id="zip-fold", checks="a11 a09", file=I+"zip.h", edits=[
  ("  using expander = int[];\n  (void)expander{0, ((void)func(std::get<I>(tuple)), 0)...};", "  (func(std::get<I>(tuple)), ...);")]),
 dict(id="zip-apply", checks="a11 a09", file=I+"zip.h", edits=[
  ("    each_tup(its_, [](auto&& it) { ++it; });", "    std::apply([](auto&... it) { ((void)++it, ...); }, its_);"), INC("tuple")]),
 dict(id="zip-dims-any", checks="a11 a09", file=I+"zip.h", edits=[
  ("  for (auto const& size : sizes) {\n    if (size != sizes[0]) {\n      throw utl::fail(\"utl::zip container size mismatch {} vs {}\", size,\n                      sizes[0]);\n    }\n  }", "  for (auto i = std::size_t{1}; i < sizes.size(); ++i) {\n    if (sizes[i] != sizes[0]) {\n      throw utl::fail(\"utl::zip container size mismatch {} vs {}\", sizes[i],\n                      sizes[0]);\n    }\n  }")]),
 dict(id="zip-index-loop", checks="a11 a09", file=I+"zip.h", edits=[
  ("    return *std::next(begin(),\n                      static_cast<typename iterator::difference_type>(i));\n  }\n\n  typename iterator::References operator[](std::size_t const i) {", "    auto it = begin();\n    for (auto k = std::size_t{0}; k != i; ++k) {\n      ++it;\n    }\n    return *it;\n  }\n\n  typename iterator::References operator[](std::size_t const i) {")]),
 dict(id="enum-post", checks="a11 a09", file=I+"enumerate.h", edits=[
  ("    auto tmp = *this;\n    ++(*this);\n    return tmp;", "    return iterator{i_++, iter_++};")]),
 dict(id="enum-order", checks="a11 a09", file=I+"enumerate.h", edits=[
  ("    ++i_;\n    ++iter_;", "    ++iter_;\n    i_ += 1U;")]),
 dict(id="enum-minus", checks="a11 a09", file=I+"enumerate.h", edits=[
  ("    i_ = static_cast<std::size_t>(static_cast<difference_type>(i_) - n);\n    iter_ -= static_cast<std::iterator_traits<It>::difference_type>(n);\n    return *this;", "    return *this += -n;")]),
 dict(id="enum-ne", checks="a11 a09", file=I+"enumerate.h", edits=[
  ("{ return iter_ != o.iter_; }", "{ return !(iter_ == o.iter_); }")]),
 # algorithm.h
 dict(id="alg-all-loop", checks="a13", file=I+"helpers/algorithm.h", edits=[
  ("  return std::all_of(begin(c), end(c), std::forward<Predicate>(p));", "  return !std::any_of(begin(c), end(c), [&](auto&& x) { return !p(x); });")]),
 dict(id="alg-none-any", checks="a13", file=I+"helpers/algorithm.h", edits=[
  ("  return std::none_of(begin(c), end(c), std::forward<Predicate>(p));", "  return !std::any_of(begin(c), end(c), std::forward<Predicate>(p));")]),
 dict(id="alg-count-loop", checks="a13", file=I+"helpers/algorithm.h", edits=[
  ("  return std::count_if(begin(c), end(c), std::forward<Predicate>(p));", "  auto it = begin(c);\n  typename std::iterator_traits<decltype(it)>::difference_type n = 0;\n  for (; it != end(c); ++it) {\n    if (p(*it)) {\n      ++n;\n    }\n  }\n  return n;"), INC("iterator")]),
 dict(id="alg-find-loop", checks="a13", file=I+"helpers/algorithm.h", edits=[
  ("  return std::find_if(begin(c), end(c), std::forward<Predicate>(p));", "  auto it = begin(c);\n  while (it != end(c) && !p(*it)) {\n    ++it;\n  }\n  return it;")]),
 dict(id="alg-nth", checks="a13", file=I+"helpers/algorithm.h", edits=[
  ("begin(c) + size, end(c), std::forward<Cmp>(cmp)", "std::next(begin(c), static_cast<std::ptrdiff_t>(size)), end(c), cmp"), INC("iterator")]),
 dict(id="alg-min-max", checks="a13", file=I+"helpers/algorithm.h", edits=[
  ("  return std::max_element(begin(c), end(c), std::forward<Fn>(fn));", "  auto const last = end(c);\n  auto best = begin(c);\n  for (auto it = best; it != last; ++it) {\n    if (fn(*best, *it)) {\n      best = it;\n    }\n  }\n  return best;")]),
 # raii & friends
 dict(id="raii-exchange", checks="r01", file=I+"raii.h", edits=[
  ("      if (exec_) {\n        destruct_();\n      }\n      destruct_ = std::move(o.destruct_);\n      exec_ = std::exchange(o.exec_, false);\n", "      if (std::exchange(exec_, false)) {\n        destruct_();\n      }\n      destruct_ = std::move(o.destruct_);\n      exec_ = o.exec_;\n      o.exec_ = false;\n")]),
 dict(id="buffer-swap", checks="r01", file=I+"parser/buffer.h", edits=[
  ("    if (this != &o) {\n      std::free(buf_);\n      buf_ = o.buf_;\n      size_ = o.size_;\n      o.buf_ = nullptr;\n      o.size_ = 0;\n    }\n    return *this;", "    if (&o == this) {\n      return *this;\n    }\n    std::free(buf_);\n    buf_ = std::exchange(o.buf_, nullptr);\n    size_ = std::exchange(o.size_, 0U);\n    return *this;"), INC("utility")]),
 dict(id="buffer-tmp-swap", checks="r01", file=I+"parser/buffer.h", edits=[
  ("    if (this != &o) {\n      std::free(buf_);\n      buf_ = o.buf_;\n      size_ = o.size_;\n      o.buf_ = nullptr;\n      o.size_ = 0;\n    }\n    return *this;", "    buffer tmp{std::move(o)};\n    std::swap(buf_, tmp.buf_);\n    std::swap(size_, tmp.size_);\n    return *this;"), INC("utility")]),
 dict(id="buffer-resize-early", checks="r01", file=I+"parser/buffer.h", edits=[
  ("    if (void* tmp = std::realloc(buf_, new_size)) {\n      buf_ = tmp;\n      size_ = new_size;\n    } else {\n      throw std::bad_alloc();\n    }", "    auto const tmp = std::realloc(buf_, new_size);\n    if (tmp == nullptr) {\n      throw std::bad_alloc{};\n    }\n    buf_ = tmp;\n    size_ = new_size;")]),
 dict(id="mmap-close-helper", checks="r01", file=I+"parser/mmap_reader_unix.h", edits=[
  ("        if (fd_ != -1) {\n          close(fd_);\n        }\n        fd_ = o.fd_;\n        size_ = o.size_;\n        o.fd_ = -1;\n        o.size_ = 0;\n", "        release();\n        fd_ = std::exchange(o.fd_, -1);\n        size_ = std::exchange(o.size_, 0U);\n"),
  ("    ~file() {\n      if (fd_ != -1) {\n        close(fd_);\n      }\n    }\n", "    ~file() { release(); }\n\n    void release() {\n      if (fd_ == -1) {\n        return;\n      }\n      close(fd_);\n      fd_ = -1;\n    }\n")]),
 dict(id="mmap-unmap-helper", checks="r01", file=I+"parser/mmap_reader_unix.h", edits=[
  ("        if (fmap_ != nullptr && fmap_ != MAP_FAILED) {  // NOLINT\n          munmap(fmap_, f_.size_);\n        }\n", "        unmap();\n"),
  ("    ~memory_map() {\n      if (fmap_ != nullptr && fmap_ != MAP_FAILED) {  // NOLINT\n        munmap(fmap_, f_.size_);\n      }\n    }\n", "    ~memory_map() { unmap(); }\n\n    void unmap() {\n      if (fmap_ != nullptr && fmap_ != MAP_FAILED) {  // NOLINT\n        munmap(fmap_, f_.size_);\n      }\n    }\n")]),
 dict(id="file-close", checks="r01", file=I+"parser/file.h", edits=[
  ("    if (f_ != nullptr) {\n      fclose(f_);\n    }\n    f_ = nullptr;", "    if (auto* const f = f_; f != nullptr) {\n      f_ = nullptr;\n      std::fclose(f);\n    }")]),
 # parallel_for
 dict(id="pf-static-worker", checks="t02", file=I+"parallel_for.h", edits=[
  ("          if (err_strat == parallel_error_strategy::QUIT_EXEC) {\n            quit = true;\n            break;\n          }", "          if (err_strat != parallel_error_strategy::QUIT_EXEC) {\n            continue;\n          }\n          quit = true;\n          break;")]*2),
 dict(id="pf-for-loop", checks="t02", file=I+"parallel_for.h", edits=[
  ("      while (!quit) {\n        auto const idx = counter.fetch_add(1);\n        if (idx >= job_count) {\n          break;\n        }\n", "      for (auto idx = counter.fetch_add(1); idx < job_count && !quit;\n           idx = counter.fetch_add(1)) {\n")]*2) ,
 dict(id="pf-join-loop", checks="t02", file=I+"parallel_for.h", edits=[
  ("  std::for_each(begin(threads), end(threads), [](auto& t) { t.join(); });", "  for (auto& t : threads) {\n    t.join();\n  }")]*2),
 dict(id="pf-emplace", checks="t02", file=I+"parallel_for.h", edits=[
  ("          std::lock_guard<std::mutex> lock{errors_mutex};\n          errors.emplace_back(std::pair{i, std::current_exception()});", "          auto const e = std::current_exception();\n          {\n            std::scoped_lock const lock{errors_mutex};\n            errors.emplace_back(i, e);\n          }")]*2),
 dict(id="pf-reserve", checks="t02", file=I+"parallel_for.h", edits=[
  ("  for (auto i = 0u; i < n_threads; ++i) {", "  threads.reserve(n_threads);\n  for (auto i = 0u; i < n_threads; ++i) {")]*2),
 dict(id="pf-counter-inc", checks="t02", file=I+"parallel_for.h", edits=[
  ("counter.fetch_add(1);", "counter++;")]*2),
 # thread_pool
 dict(id="tp-worker-fn", checks="t01", file=I+"thread_pool.h", edits=[
  ("          while (true) {\n            auto const idx = counter_.fetch_add(1);\n            if (idx >= job_count_) {\n              break;\n            }\n            fn_(idx);\n          }", "          run_jobs();"),
  ("private:\n", "private:\n  void run_jobs() {\n    for (auto idx = counter_++; idx < job_count_; idx = counter_++) {\n      fn_(idx);\n    }\n  }\n\n")]),
 dict(id="tp-stop-guard", checks="t01", file=I+"thread_pool.h", edits=[
  ("      std::unique_lock<std::mutex> lk(mutex_);\n      stop_ = true;", "      std::lock_guard<std::mutex> const lk{mutex_};\n      stop_ = true;"),
  ("std::for_each(begin(threads_), end(threads_), [](auto& t) { t.join(); });", "for (auto& t : threads_) {\n      t.join();\n    }")]),
 dict(id="tp-wait-loop", checks="t01", file=I+"thread_pool.h", edits=[
  ("    cv_.wait(lk,\n             [&] { return threads_active_ == 0 && counter_ >= job_count_; });", "    while (threads_active_ != 0 || counter_ < job_count_) {\n      cv_.wait(lk);\n    }")]),
 dict(id="tp-notify-unlocked", checks="t01", file=I+"thread_pool.h", edits=[
  ("            --threads_active_;\n            cv_.notify_all();\n          }", "            --threads_active_;\n          }\n          cv_.notify_all();")]),
 dict(id="tp-one-lock", checks="t01", file=I+"thread_pool.h", edits=[
  ("    {\n      std::unique_lock<std::mutex> lk(mutex_);\n      verify(", "    std::unique_lock<std::mutex> lk(mutex_);\n      verify("), ("      fn_ = fn;\n    }\n\n    cv_.notify_all();\n\n    std::unique_lock<std::mutex> lk(mutex_);", "      fn_ = fn;\n\n    cv_.notify_all();\n")]),
 # cstr
 dict(id="cs-eq-view", checks="p01", file=I+"parser/cstr.h", edits=[
  ("    if (len != s.len) {\n      return false;\n    } else if (len == 0) {\n      return true;\n    } else {\n      return std::memcmp(str, s.str, len) == 0;\n    }", "    return len == s.len && (len == 0 || std::memcmp(str, s.str, len) == 0);")]),
 dict(id="cs-trim-loop", checks="p01", file=I+"parser/cstr.h", edits=[
  ("    auto copy = (*this);\n    while (copy.len != 0 && is_space(copy.str[copy.len - 1])) {\n      --copy.len;\n    }\n    return copy;", "    auto n = len;\n    while (n > 0 && is_space(str[n - 1])) {\n      --n;\n    }\n    return {str, n};")]),
 dict(id="cs-front-pos", checks="p01", file=I+"parser/cstr.h", edits=[
  ("    auto copy = (*this);\n    while (copy.len != 0 && is_space(copy[0])) {\n      ++copy;\n    }\n    return copy;", "    auto pos = size_t{0};\n    while (pos < len && is_space(str[pos])) {\n      ++pos;\n    }\n    return {str + pos, len - pos};")]),
 dict(id="cs-substr-delegate", checks="p01", file=I+"parser/cstr.h", edits=[
  ("    auto const adjusted_begin = std::min(begin, len);\n    return {str + adjusted_begin, len - adjusted_begin};", "    return substr(begin, len);")]),
 dict(id="cs-substr-end", checks="p01", file=I+"parser/cstr.h", edits=[
  ("    auto const adjusted_end = std::max(adjusted_begin, std::min(end, len));\n", "    auto adjusted_end = end < len ? end : len;\n    if (adjusted_end < adjusted_begin) {\n      adjusted_end = adjusted_begin;\n    }\n")]),
 dict(id="cs-starts-memcmp", checks="p01", file=I+"parser/cstr.h", edits=[
  ("    if (len < prefix.len) {\n      return false;\n    }\n    return substr(0, size(prefix.len)) == prefix;", "    return len >= prefix.len && cstr{str, prefix.len} == prefix;")]),
 dict(id="cs-until-loop", checks="p01 p02", file=I+"parser/cstr.h", edits=[
  ("  auto end = static_cast<char const*>(std::memchr(s.str, delimiter, s.len));\n  if (end == nullptr) {\n    return s;\n  }\n  return {s.str, static_cast<size_t>(end - s.str)};", "  auto n = size_t{0};\n  while (n != s.len && s.str[n] != delimiter) {\n    ++n;\n  }\n  return {s.str, n};")]),
 dict(id="cs-until-find", checks="p01 p02", file=I+"parser/cstr.h", edits=[
  ("  auto end = static_cast<char const*>(std::memchr(s.str, delimiter, s.len));\n  if (end == nullptr) {\n    return s;\n  }\n  return {s.str, static_cast<size_t>(end - s.str)};", "  return {s.begin(), std::find(s.begin(), s.end(), delimiter)};"), INC("algorithm")]),
 dict(id="cs-strip-len", checks="p01 p02", file=I+"parser/cstr.h", edits=[
  ("  return (s && s[s.len - 1] == '\\r') ? s.substr(0, size(s.len - 1)) : s;", "  if (s.valid() && s.str[s.len - 1] == '\\r') {\n    --s.len;\n  }\n  return s;")]),
 dict(id="cs-token-rest", checks="p02", file=I+"parser/cstr.h", edits=[
  ("    f(token);\n    s += token.len;\n    // skip separator\n    if (s.len != 0) {\n      ++s;\n    }", "    f(token);\n    s += token.len == s.len ? token.len : token.len + 1;")]),
 dict(id="cs-token-delegate", checks="p02", file=I+"parser/cstr.h", edits=[
  ("  while (s.len > 0) {\n    cstr token = get_until(s, separator);\n    if (f(token) == continue_t::kBreak) {\n      break;\n    }\n", "  auto go_on = true;\n  while (go_on && !s.empty()) {\n    auto const token = get_until(s, separator);\n    go_on = f(token) != continue_t::kBreak;\n    if (!go_on) {\n      return;\n    }\n")]),
 dict(id="cs-skiplines-flag", checks="p02 p01", file=I+"parser/cstr.h", edits=[
  ("    if (!skip(strip_cr(line))) {\n      break;\n    }\n    file_content += line.len;", "    if (auto const skipped = skip(strip_cr(line)); !skipped) {\n      return file_content;\n    }\n    file_content += line.len;")]),
 dict(id="cs-offset-view", checks="p01", file=I+"parser/cstr.h", edits=[
  ("    for (size_t i = 0; i < len; ++i) {\n      if (substr(i).starts_with(needle)) {\n        return i;\n      }\n    }\n    return std::numeric_limits<size_t>::max();", "    auto rest = *this;\n    while (!rest.empty()) {\n      if (rest.starts_with(needle)) {\n        return len - rest.len;\n      }\n      ++rest;\n    }\n    return std::numeric_limits<size_t>::max();")]),
 dict(id="cs-contains-search", checks="p01", file=I+"parser/cstr.h", edits=[
  ("    return view().find(needle.view()) != std::string_view::npos;", "    auto const pos = view().find(needle.view());\n    return pos <= len;")]),
 # buf_reader
 dict(id="br-until", checks="p02", file=I+"parser/buf_reader.h", edits=[
  ("    auto const nl = static_cast<char const*>(memchr(it_, '\\n', num));\n    if (nl == nullptr) {\n      auto const tmp = it_;\n      it_ = last;\n      return {tmp, static_cast<size_t>(num)};\n    } else {\n      auto const length = nl - start;\n      it_ = nl;\n      ++it_;\n      update_progress();\n      return {start, static_cast<size_t>(length)};\n    }", "    auto const line = get_until(cstr{start, num}, '\\n');\n    if (line.len == num) {\n      it_ = last;\n      return line;\n    }\n    it_ = start + line.len + 1;\n    update_progress();\n    return line;")]),
 # csv
 dict(id="csv-quoted-bool", checks="p03", file=I+"parser/csv.h", edits=[
  ("  char end = Separator;\n  if (*s.str == '\"') {\n    end = '\"';\n    ++s;\n  }\n", "  auto const quoted = *s.str == '\"';\n  char const end = quoted ? '\"' : Separator;\n  if (quoted) {\n    ++s;\n  }\n"),
  ("end != Separator && c == end", "quoted && c == end")]),
 dict(id="csv-field-len", checks="p03", file=I+"parser/csv.h", edits=[
  ("  arg.assign(begin.str, static_cast<size_t>(field_end - begin.str));", "  auto const length = static_cast<size_t>(std::distance(begin.str, field_end));\n  arg.assign(begin.str, length);")]),
 dict(id="csv-unescape-copy", checks="p03", file=I+"parser/csv.h", edits=[
  ("      arg.erase(static_cast<unsigned>(found_at), 1U);\n      ++found_at;  // Skip following character (\"), we are now after the \"\"\n    } else {\n      ++found_at;  // Continue search from next character\n    }", "      arg.erase(static_cast<unsigned>(found_at), 1U);\n    }\n    ++found_at;")]),
 dict(id="csv-rows-for", checks="p03", file=I+"parser/csv.h", edits=[
  ("  for (unsigned row_idx = 0; row_idx < rows.size(); ++row_idx) {\n    read(v[row_idx], rows[row_idx]);\n  }", "  auto out = begin(v);\n  for (auto& row : rows) {\n    read(*out, row);\n    ++out;\n  }")]),
 dict(id="csv-has-row", checks="p03", file=I+"parser/csv.h", edits=[
  ("  return s.len > 2 ||  // no special case possible\n         (s.len == 2 && s[0] != '\\r') ||  // \"\\r\\n\"\n         (s.len == 1 && s[0] != '\\n');  // \"\\n\"", "  switch (s.len) {\n    case 0: return false;\n    case 1: return s[0] != '\\n';\n    case 2: return s[0] != '\\r';\n    default: return true;\n  }")]),
 dict(id="csv-read-delegate", checks="p03", file=I+"parser/csv.h", edits=[
  ("  auto column_map = read_header<Tuple, Separator>(s, defined_columns);\n  auto rows = read_rows<Tuple, Separator>(s, column_map);\n  std::vector<Tuple> entries;\n  read(entries, rows);\n  return entries;", "  std::vector<Tuple> entries;\n  read<Tuple, Separator>(s, entries, defined_columns);\n  return entries;")]),
 dict(id="csv-header-find", checks="p03", file=I+"parser/csv.h", edits=[
  ("    for (column_idx_t c = 0; c != defined_columns.size(); ++c) {\n      if (header == defined_columns[c]) {\n        column_map[column] = c;\n        break;\n      }\n    }", "    auto const match =\n        std::find(begin(defined_columns), end(defined_columns), header);\n    if (match != end(defined_columns)) {\n      column_map[column] = static_cast<column_idx_t>(\n          std::distance(begin(defined_columns), match));\n    }"), INC("algorithm")]),
 dict(id="csvr-next-helper", checks="p03", file=I+"parser/csv_range.h", edits=[
  ("    cstr s;\n    LineRange::next(s);\n    if (LineRange::valid(s)) {\n      return read_row(s);\n    } else {\n      return std::nullopt;\n    }", "    std::optional<T> first;\n    next(first);\n    return first;")]),
 dict(id="csvr-row-while", checks="p03", file=I+"parser/csv_range.h", edits=[
  ("    for (column_idx_t i = 0; i < MAX_COLUMNS && s; ++i) {", "    for (auto i = std::size_t{0}; i != MAX_COLUMNS && s.valid(); ++i) {")]),
 # arg_parser
 dict(id="arg-negative", checks="p04", file=I+"parser/arg_parser.h", edits=[
  ("  IntType sign = 1;\n", "  auto negative = false;\n"), ("      sign = -1;\n", "      negative = true;\n"),
  ("    arg *= sign;\n", "    if (negative) {\n      arg = static_cast<IntType>(-arg);\n    }\n")]),
 dict(id="arg-isdigit", checks="p04", file=I+"parser/arg_parser.h", edits=[
  ("    if (c > '9' || c < '0') {\n      break;\n    }\n    arg = arg * 10 + static_cast<IntType>(c - '0');\n    value_okay = true;\n    ++s;\n  }", "    auto const digit = static_cast<unsigned char>(c - '0');\n    if (digit > 9U) {\n      break;\n    }\n    arg = arg * 10 + static_cast<IntType>(digit);\n    value_okay = true;\n    ++s;\n  }")]),
 dict(id="arg-early", checks="p04", file=I+"parser/arg_parser.h", edits=[
  ("  if (!value_okay) {\n    arg = default_value;\n  } else {\n    arg *= sign;\n  }\n\n  return value_okay && s.empty();", "  if (!value_okay) {\n    arg = default_value;\n    return false;\n  }\n\n  arg *= sign;\n  return s.len == 0;")]),
 dict(id="arg-fp-early", checks="p04", file=I+"parser/arg_parser.h", edits=[
  ("    if (c > '9' || c < '0') {\n      is_good = false;\n      break;\n    }\n    v += multiplier * (c - '0');\n    multiplier *= static_cast<T>(0.1);\n    if (s) {\n      ++s;\n    }", "    if (c < '0' || c > '9') {\n      is_good = false;\n      break;\n    }\n    ++s;\n    v += multiplier * static_cast<T>(c - '0');\n    multiplier *= static_cast<T>(0.1);")]),
 dict(id="arg-bool-min", checks="p04", file=I+"parser/arg_parser.h", edits=[
  ("    for (int i = 0; i < 4 && s; ++i, ++s);\n", "    s += std::min(s.len, std::size_t{4});\n"),
  ("    for (int i = 0; i < 5 && s; ++i, ++s);\n", "    s += std::min(s.len, std::size_t{5});\n"), INC("algorithm")]),
 dict(id="arg-skip-line", checks="p04 p03", file=I+"parser/arg_parser.h", edits=[
  ("  while (s && *s.str != '\\n') {\n    ++s;\n  }\n  if (s && *s.str == '\\n') {\n    ++s;\n  }", "  s += get_until(s, '\\n').len;\n  if (s) {\n    ++s;\n  }")]),
 # cmd line
 dict(id="cmd-next", checks="m01", file=I+"cmd_line_parser.h", edits=[
  ("      auto const s = cstr(argv[i]);\n", "      auto const s = cstr(argv[i]);\n      auto const next = i + 1 < argc ? cstr(argv[i + 1]) : cstr{};\n"),
  ("parse_flag(f.val(), i >= argc - 1 ? nullptr : argv[i + 1]);", "parse_flag(f.val(), next);"), ("parse_flag(f.val(), i >= argc - 1 ? nullptr : argv[i + 1]);", "parse_flag(f.val(), next);")]),
 dict(id="cmd-throw-first", checks="m01", file=I+"cmd_line_parser.h", edits=[
  ("    if (!found && std::is_base_of_v<required, Type>) {\n", "    if constexpr (std::is_base_of_v<required, Type>) {\n      if (found) {\n        return;\n      }\n")]),
 # init_from
 # sort_by
]
