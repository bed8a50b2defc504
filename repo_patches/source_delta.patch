From e56f915fe42729e9c830b9cfc207fbb3ce9b7ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:05 +0000
Subject: [PATCH 01/42] fix: enumerate iterator postfix increment and decrement
 modify the iterator

---
 include/utl/enumerate.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/enumerate.h b/include/utl/enumerate.h
index c87b7cc..65d7359 100644
--- a/include/utl/enumerate.h
+++ b/include/utl/enumerate.h
@@ -37,13 +37,13 @@ struct iterator {
     --iter_;
   }
 
-  iterator operator++(int) const {
+  iterator operator++(int) {
     auto tmp = *this;
     ++(*this);
     return tmp;
   }
 
-  iterator operator--(int) const
+  iterator operator--(int)
     requires(std::bidirectional_iterator<It>)
   {
     auto tmp = *this;
-- 
2.43.0


From c0334aa12a47ea35b9cf959b552f90807dd24e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:16 +0000
Subject: [PATCH 02/42] fix: distance between enumerate iterators counts
 positions (the end iterator has no index)

---
 include/utl/enumerate.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/utl/enumerate.h b/include/utl/enumerate.h
index 65d7359..7d418cf 100644
--- a/include/utl/enumerate.h
+++ b/include/utl/enumerate.h
@@ -20,7 +20,12 @@ struct iterator {
   using pointer = std::add_pointer_t<value_type>;
 
   difference_type operator-(iterator const& o) const {
-    return static_cast<std::ptrdiff_t>(i_) - static_cast<std::ptrdiff_t>(o.i_);
+    if constexpr (std::random_access_iterator<It>) {
+      return static_cast<difference_type>(iter_ - o.iter_);
+    } else {
+      return static_cast<std::ptrdiff_t>(i_) -
+             static_cast<std::ptrdiff_t>(o.i_);
+    }
   }
 
   bool operator!=(iterator const& o) const { return iter_ != o.iter_; }
-- 
2.43.0


From 640b6562f7de03b382afd6e30fe9097ab7b6e042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:38 +0000
Subject: [PATCH 03/42] fix: is_uniform handles empty ranges and leaves the
 elements alone

---
 include/utl/is_uniform.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/utl/is_uniform.h b/include/utl/is_uniform.h
index a4e58be..baa8b36 100644
--- a/include/utl/is_uniform.h
+++ b/include/utl/is_uniform.h
@@ -7,24 +7,28 @@ namespace utl {
 
 template <typename It1, typename It2, typename Predicate>
 bool is_uniform(It1&& it1, It2&& it2, Predicate&& fn) {
-  auto& pred = *it1;
-  for (auto it = ++it1; it != it2; ++it) {
-    if (fn(*it) != fn(pred)) {
+  if (it1 == it2) {
+    return true;
+  }
+  auto it = it1;
+  for (++it; it != it2; ++it) {
+    if (fn(*it) != fn(*it1)) {
       return false;
     }
-    pred = *it;
   }
   return true;
 }
 
 template <typename It1, typename It2>
 bool is_uniform(It1&& it1, It2&& it2) {
-  auto& pred = *it1;
-  for (auto it = ++it1; it != it2; ++it) {
-    if (*it != pred) {
+  if (it1 == it2) {
+    return true;
+  }
+  auto it = it1;
+  for (++it; it != it2; ++it) {
+    if (*it != *it1) {
       return false;
     }
-    pred = *it;
   }
   return true;
 }
-- 
2.43.0


From 024f7e10335635984e048c02038078694e709b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:38 +0000
Subject: [PATCH 04/42] fix: is_uniform accepts a container with a function

---
 include/utl/is_uniform.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/utl/is_uniform.h b/include/utl/is_uniform.h
index baa8b36..79f14b1 100644
--- a/include/utl/is_uniform.h
+++ b/include/utl/is_uniform.h
@@ -41,8 +41,9 @@ bool is_uniform(Collection&& c) {
 }
 
 template <typename Collection, typename Predicate>
-std::enable_if_t<std::is_function_v<Predicate>, bool> is_uniform(
-    Collection&& c, Predicate&& fn) {
+  requires std::invocable<Predicate,
+                          decltype(*std::begin(std::declval<Collection&>()))>
+bool is_uniform(Collection&& c, Predicate&& fn) {
   using std::begin;
   using std::end;
   return is_uniform(begin(c), end(c), std::forward<Predicate&&>(fn));
-- 
2.43.0


From 8fa2fce17138768dde78cc4f3c07889388519299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:06 +0000
Subject: [PATCH 05/42] fix: parallel_for threads keep their own index instead
 of reading the loop variable

---
 include/utl/parallel_for.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/parallel_for.h b/include/utl/parallel_for.h
index 5d75804..0722f86 100644
--- a/include/utl/parallel_for.h
+++ b/include/utl/parallel_for.h
@@ -33,7 +33,7 @@ inline errors_t parallel_for_run_threadlocal(
   std::atomic<bool> quit{false};
   std::vector<std::thread> threads;
   for (auto i = 0u; i < std::thread::hardware_concurrency(); ++i) {
-    threads.emplace_back([&]() {
+    threads.emplace_back([&, i]() {
       auto threadlocal = ThreadLocal{};
 
       while (!quit) {
@@ -78,7 +78,7 @@ inline errors_t parallel_for_run(
   std::atomic<bool> quit{false};
   std::vector<std::thread> threads;
   for (auto i = 0u; i < std::thread::hardware_concurrency(); ++i) {
-    threads.emplace_back([&]() {
+    threads.emplace_back([&, i]() {
       while (!quit) {
         auto const idx = counter.fetch_add(1);
         if (idx >= job_count) {
-- 
2.43.0


From 595496dff77846a2b7a5495eb1c16ed4112ba5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:06 +0000
Subject: [PATCH 06/42] fix: parallel_for runs the jobs when the number of
 hardware threads is unknown

---
 include/utl/parallel_for.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/utl/parallel_for.h b/include/utl/parallel_for.h
index 0722f86..c16303d 100644
--- a/include/utl/parallel_for.h
+++ b/include/utl/parallel_for.h
@@ -32,7 +32,8 @@ inline errors_t parallel_for_run_threadlocal(
   std::atomic<size_t> counter(0);
   std::atomic<bool> quit{false};
   std::vector<std::thread> threads;
-  for (auto i = 0u; i < std::thread::hardware_concurrency(); ++i) {
+  auto const n_threads = std::max(1u, std::thread::hardware_concurrency());
+  for (auto i = 0u; i < n_threads; ++i) {
     threads.emplace_back([&, i]() {
       auto threadlocal = ThreadLocal{};
 
@@ -77,7 +78,8 @@ inline errors_t parallel_for_run(
   std::atomic<size_t> counter(0);
   std::atomic<bool> quit{false};
   std::vector<std::thread> threads;
-  for (auto i = 0u; i < std::thread::hardware_concurrency(); ++i) {
+  auto const n_threads = std::max(1u, std::thread::hardware_concurrency());
+  for (auto i = 0u; i < n_threads; ++i) {
     threads.emplace_back([&, i]() {
       while (!quit) {
         auto const idx = counter.fetch_add(1);
-- 
2.43.0


From 6f4e322348a8ba72f98b3c250b368c4ae7371e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:47 +0000
Subject: [PATCH 07/42] fix: thread_pool starts a worker when the number of
 hardware threads is unknown

---
 include/utl/thread_pool.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/utl/thread_pool.h b/include/utl/thread_pool.h
index dfaec53..b642211 100644
--- a/include/utl/thread_pool.h
+++ b/include/utl/thread_pool.h
@@ -1,7 +1,8 @@
 #pragma once
 
-#include <condition_variable>
+#include <algorithm>
 #include <atomic>
+#include <condition_variable>
 #include <functional>
 #include <mutex>
 #include <thread>
@@ -21,7 +22,8 @@ struct thread_pool {
         stop_{false},
         job_count_{0},
         counter_{0} {
-    for (auto i = 0U; i < std::thread::hardware_concurrency(); ++i) {
+    auto const n_threads = std::max(1U, std::thread::hardware_concurrency());
+    for (auto i = 0U; i < n_threads; ++i) {
       threads_.emplace_back([&, this] {
         initializer_();
         while (true) {
-- 
2.43.0


From fffc5764b0ba003315722adacb94c9794a458300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:40 +0000
Subject: [PATCH 08/42] fix: cstr::substr stays inside the text for offsets
 behind the end

---
 include/utl/parser/cstr.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/utl/parser/cstr.h b/include/utl/parser/cstr.h
index 2691fb8..a01e9f1 100755
--- a/include/utl/parser/cstr.h
+++ b/include/utl/parser/cstr.h
@@ -83,10 +83,13 @@ struct cstr {
   }
   cstr substr(size_t begin, size_t end) const {
     auto const adjusted_begin = std::min(begin, len);
-    auto const adjusted_end = std::min(end, len);
+    auto const adjusted_end = std::max(adjusted_begin, std::min(end, len));
     return {str + adjusted_begin, adjusted_end - adjusted_begin};
   }
-  cstr substr(size_t begin) const { return {str + begin, len - begin}; }
+  cstr substr(size_t begin) const {
+    auto const adjusted_begin = std::min(begin, len);
+    return {str + adjusted_begin, len - adjusted_begin};
+  }
   cstr substr(field const& f) const {
     return (f.size == field::MAX_SIZE) ? substr(f.from)
                                        : substr(f.from, size(f.size));
-- 
2.43.0


From 9e43e9484f75b0f08ea9b841d22f5f0f5fc685ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:40 +0000
Subject: [PATCH 09/42] fix: cstr equality compares all bytes, not only those
 up to a NUL

---
 include/utl/parser/cstr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/parser/cstr.h b/include/utl/parser/cstr.h
index a01e9f1..5ec2c54 100755
--- a/include/utl/parser/cstr.h
+++ b/include/utl/parser/cstr.h
@@ -58,7 +58,7 @@ struct cstr {
     } else if (len == 0) {
       return true;
     } else {
-      return strncmp(str, s.str, len) == 0;
+      return std::memcmp(str, s.str, len) == 0;
     }
   }
   bool operator!=(cstr const& s) const { return !operator==(s); }
-- 
2.43.0


From 07239adf9c4b1b3ea8fc7b5236aa481d811aa9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:48 +0000
Subject: [PATCH 10/42] fix: skip_lines skips the whole line ending of CRLF
 lines

---
 include/utl/parser/cstr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/parser/cstr.h b/include/utl/parser/cstr.h
index 5ec2c54..9083a20 100755
--- a/include/utl/parser/cstr.h
+++ b/include/utl/parser/cstr.h
@@ -274,8 +274,8 @@ void for_each_line_numbered(cstr s, Function&& f) {
 template <typename Predicate>
 cstr skip_lines(cstr file_content, Predicate skip) {
   while (file_content.len > 0) {
-    cstr line = get_line(file_content);
-    if (!skip(line)) {
+    cstr line = get_until(file_content, '\n');
+    if (!skip(strip_cr(line))) {
       break;
     }
     file_content += line.len;
-- 
2.43.0


From 3293d8ed9b0f82e9553068262c72ca5407593b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:59 +0000
Subject: [PATCH 11/42] fix: parse_column keeps the field inside the text when
 the closing quote is missing

---
 include/utl/parser/csv.h | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/include/utl/parser/csv.h b/include/utl/parser/csv.h
index 9968734..9b05bcc 100644
--- a/include/utl/parser/csv.h
+++ b/include/utl/parser/csv.h
@@ -27,7 +27,7 @@ inline void parse_column(cstr& s, T& arg) {
   }
 
   auto begin = s;
-  int adjust_for_cr = 0;
+  auto field_end = s.end();
   while (s) {
     char c = *s.str;
 
@@ -37,22 +37,18 @@ inline void parse_column(cstr& s, T& arg) {
       continue;
     }
 
-    if (c == end || c == '\r' || c == '\n' || s.len == 0) {
-      if ((end == '"' && s.len != 0) || (c == '\r' && s.len != 0)) {
+    if (c == end || c == '\r' || c == '\n') {
+      field_end = s.str;
+      if (c == '"' || c == '\r') {
         ++s;
       }
-      adjust_for_cr = (c == '\r') ? -1 : 0;
       break;
     }
 
-    if (s) {
-      ++s;
-    }
+    ++s;
   }
 
-  int adjust_for_quote = (end == '"') ? -1 : 0;
-  arg.assign(begin.str, static_cast<size_t>((s.str - begin.str) +
-                                            adjust_for_quote + adjust_for_cr));
+  arg.assign(begin.str, static_cast<size_t>(field_end - begin.str));
 }
 
 template <typename StringType>
-- 
2.43.0


From 78a76e7423f267e179e2d09d5b6d91bb4974931c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:59 +0000
Subject: [PATCH 12/42] fix: parse_arg reads false as false when the default
 value is true

---
 include/utl/parser/arg_parser.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/utl/parser/arg_parser.h b/include/utl/parser/arg_parser.h
index d50755a..8e7fada 100644
--- a/include/utl/parser/arg_parser.h
+++ b/include/utl/parser/arg_parser.h
@@ -116,6 +116,7 @@ inline bool parse_arg(cstr& s, bool& b, bool const default_value = false) {
     for (int i = 0; i < 4 && s; ++i, ++s);
     return ret;
   } else if (c == 'f') {
+    b = false;
     auto const ret = s.len == 5 &&  //
                      std::tolower(s[1]) == 'a' &&  //
                      std::tolower(s[2]) == 'l' &&  //
-- 
2.43.0


From f3fb8cb20640d88860b5f55083a80c093a0124f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:59 +0000
Subject: [PATCH 13/42] fix: parse_fp keeps the integer part of numbers that do
 not fit an int

---
 include/utl/parser/arg_parser.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/utl/parser/arg_parser.h b/include/utl/parser/arg_parser.h
index 8e7fada..f6c75ea 100644
--- a/include/utl/parser/arg_parser.h
+++ b/include/utl/parser/arg_parser.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <cassert>
+#include <cstdint>
 #include <filesystem>
 #include <string>
 
@@ -62,7 +63,7 @@ inline bool parse_fp(cstr& s, T& v) {
     ++s;
   }
 
-  int pre_point;
+  std::int64_t pre_point;
   parse_arg(s, pre_point);
   v = static_cast<T>(pre_point);
   if (s.len == 0) {
-- 
2.43.0


From 9c3c7cefffc615664d076533c546f7b67f2144af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:59 +0000
Subject: [PATCH 14/42] fix: parse_arg for paths stops at the end of the text

---
 include/utl/parser/arg_parser.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/utl/parser/arg_parser.h b/include/utl/parser/arg_parser.h
index f6c75ea..8046783 100644
--- a/include/utl/parser/arg_parser.h
+++ b/include/utl/parser/arg_parser.h
@@ -137,7 +137,9 @@ inline void parse_arg(cstr& s, cista::raw::generic_string& arg) {
   arg.set_non_owning(s.str, static_cast<unsigned>(s.len));
 }
 
-inline void parse_arg(cstr& s, std::filesystem::path& arg) { arg = s.str; }
+inline void parse_arg(cstr& s, std::filesystem::path& arg) {
+  arg = s.view();
+}
 
 template <typename T>
 inline T parse(cstr s) {
-- 
2.43.0


From 56fad674a2441859a354284994c8f5fc6ce59bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:51 +0000
Subject: [PATCH 15/42] fix: take_while read past the end of the range when no
 element fails the predicate

---
 include/utl/pipes/take_while.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/pipes/take_while.h b/include/utl/pipes/take_while.h
index ca02a27..6a7bffb 100644
--- a/include/utl/pipes/take_while.h
+++ b/include/utl/pipes/take_while.h
@@ -18,7 +18,7 @@ struct take_while_range : public clear_t<Range> {
 
   template <typename It>
   bool valid(It& it) {
-    return take_while_.fn_(this->read(it));
+    return parent_t::valid(it) && take_while_.fn_(this->read(it));
   }
 
   TakeWhile take_while_;
-- 
2.43.0


From a555f2b20dd2909f01e1c9de78c1d62ca3c889f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:51 +0000
Subject: [PATCH 16/42] fix: pipes make_range returned a dangling reference to
 a temporary range (containers, pointers)

---
 include/utl/pipes/make_range.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/pipes/make_range.h b/include/utl/pipes/make_range.h
index 02aa10e..434f5e3 100644
--- a/include/utl/pipes/make_range.h
+++ b/include/utl/pipes/make_range.h
@@ -10,10 +10,10 @@
 namespace utl {
 
 template <typename T>
-auto&& make_range(T&& t) {
+decltype(auto) make_range(T&& t) {
   using Type = std::remove_const_t<std::remove_reference_t<T>>;
   if constexpr (is_range<Type>::value) {
-    return t;
+    return (t);
   } else if constexpr (std::is_pointer_v<Type>) {
     return all(*t);
   } else {
-- 
2.43.0


From e7e590a0608106576d70ec91e234504b3ce73bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:51 +0000
Subject: [PATCH 17/42] fix: avg summed in size_t and returned garbage for
 negative and fractional elements

---
 include/utl/pipes/avg.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/utl/pipes/avg.h b/include/utl/pipes/avg.h
index 5d81b36..ff4fe49 100644
--- a/include/utl/pipes/avg.h
+++ b/include/utl/pipes/avg.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cstddef>
 #include <utility>
 
 #include "utl/pipes/make_range.h"
@@ -9,15 +10,15 @@ namespace utl {
 struct avg_t {
   template <typename T>
   friend double operator|(T&& r, avg_t) {
-    auto sum = std::size_t{0};
+    auto sum = 0.0;
     auto count = std::size_t{0};
     auto it = r.begin();
     while (r.valid(it)) {
-      sum += r.read(it);
+      sum += static_cast<double>(r.read(it));
       ++count;
       r.next(it);
     }
-    return static_cast<double>(sum) / static_cast<double>(count);
+    return sum / static_cast<double>(count);
   }
 };
 
-- 
2.43.0


From 062e7e4553564939ecf489002a3623377dd65649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:51 +0000
Subject: [PATCH 18/42] fix: max returned its integer result as double (and did
 not include <algorithm>)

---
 include/utl/pipes/max.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/utl/pipes/max.h b/include/utl/pipes/max.h
index 823e281..7b13c7b 100644
--- a/include/utl/pipes/max.h
+++ b/include/utl/pipes/max.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <utility>
 
 #include "utl/pipes/make_range.h"
@@ -9,7 +10,7 @@ namespace utl {
 template <typename MaxType>
 struct max {
   template <typename T>
-  friend double operator|(T&& t, max&& f) {
+  friend MaxType operator|(T&& t, max&& f) {
     auto r = make_range(std::forward<T>(t));
     auto it = r.begin();
 
-- 
2.43.0


From 863ca74e98952e0be1acac25bc92b9b82f5b1e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:51 +0000
Subject: [PATCH 19/42] fix: to_set(begin, end, op) did not compile

---
 include/utl/to_set.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/to_set.h b/include/utl/to_set.h
index 657bdee..1619e1e 100644
--- a/include/utl/to_set.h
+++ b/include/utl/to_set.h
@@ -10,8 +10,8 @@ template <typename It, typename UnaryOperation>
 inline auto to_set(It b, It e,
                    UnaryOperation&& op) -> std::set<decltype(op(*b))> {
   using set = std::set<decltype(op(*b))>;
-  set s(std::distance(s, e));
-  std::transform(b, e, std::insert_iterator<set>(s), op);
+  set s;
+  std::transform(b, e, std::insert_iterator<set>(s, s.begin()), op);
   return s;
 }
 
-- 
2.43.0


From 81fda567c712048e1ec0fd2dda3cc4deba020e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:30 +0000
Subject: [PATCH 20/42] fix: fill, equal, max_element and min_element find
 begin and end of built-in arrays

---
 include/utl/helpers/algorithm.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/utl/helpers/algorithm.h b/include/utl/helpers/algorithm.h
index 6757f1a..272b388 100644
--- a/include/utl/helpers/algorithm.h
+++ b/include/utl/helpers/algorithm.h
@@ -81,21 +81,29 @@ constexpr bool is_sorted(Collection&& c, Predicate&& p) {
 
 template <typename Collection, typename T>
 constexpr void fill(Collection&& c, T const& value) {
+  using std::begin;
+  using std::end;
   std::fill(begin(c), end(c), value);
 }
 
 template <typename Collection1, typename Collection2>
 constexpr bool equal(Collection1&& c1, Collection2&& c2) {
+  using std::begin;
+  using std::end;
   return std::equal(begin(c1), end(c1), begin(c2), end(c2));
 }
 
 template <typename Collection, typename Fn>
 constexpr auto max_element(Collection&& c, Fn&& fn) {
+  using std::begin;
+  using std::end;
   return std::max_element(begin(c), end(c), std::forward<Fn>(fn));
 }
 
 template <typename Collection, typename Fn>
 constexpr auto min_element(Collection&& c, Fn&& fn) {
+  using std::begin;
+  using std::end;
   return std::min_element(begin(c), end(c), std::forward<Fn>(fn));
 }
 
-- 
2.43.0


From 2673a12d9c60dee5cc3b0393c1c484847560d92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:11 +0000
Subject: [PATCH 21/42] fix: buffer move assignment releases the old memory

---
 include/utl/parser/buffer.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/utl/parser/buffer.h b/include/utl/parser/buffer.h
index 7d1ba8a..4529016 100644
--- a/include/utl/parser/buffer.h
+++ b/include/utl/parser/buffer.h
@@ -37,10 +37,13 @@ struct buffer final {
   }
 
   buffer& operator=(buffer&& o) noexcept {
-    buf_ = o.buf_;
-    size_ = o.size_;
-    o.buf_ = nullptr;
-    o.size_ = 0;
+    if (this != &o) {
+      std::free(buf_);
+      buf_ = o.buf_;
+      size_ = o.size_;
+      o.buf_ = nullptr;
+      o.size_ = 0;
+    }
     return *this;
   }
 
-- 
2.43.0


From addbc4acbafc60762cceaa7d8eb33761b5c5d370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:11 +0000
Subject: [PATCH 22/42] fix: buffer::resize(0) does not free the memory twice

---
 include/utl/parser/buffer.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/utl/parser/buffer.h b/include/utl/parser/buffer.h
index 4529016..6c1d1bb 100644
--- a/include/utl/parser/buffer.h
+++ b/include/utl/parser/buffer.h
@@ -58,6 +58,12 @@ struct buffer final {
   inline unsigned char* end() { return data() + size_; }
 
   inline void resize(std::size_t new_size) {
+    if (new_size == 0) {
+      std::free(buf_);
+      buf_ = nullptr;
+      size_ = 0;
+      return;
+    }
     if (void* tmp = std::realloc(buf_, new_size)) {
       buf_ = tmp;
       size_ = new_size;
-- 
2.43.0


From cb295596ad3788751c63a68d55d68d5889113b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:11 +0000
Subject: [PATCH 23/42] fix: file is not copyable (its handle was closed twice)

---
 include/utl/parser/file.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/utl/parser/file.h b/include/utl/parser/file.h
index 9be1e1a..b8dc7cb 100644
--- a/include/utl/parser/file.h
+++ b/include/utl/parser/file.h
@@ -147,6 +147,9 @@ struct file {
     verify(f_ != nullptr, "unable to open file {} (mode={})", path, mode);
   }
 
+  file(file const&) = delete;
+  file& operator=(file const&) = delete;
+
   ~file() {
     if (f_ != nullptr) {
       fclose(f_);
-- 
2.43.0


From f954356f4cc5db78ba6713bd5236b3120184f9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:11 +0000
Subject: [PATCH 24/42] fix: mmap_reader move assignment releases the old file
 and mapping

---
 include/utl/parser/mmap_reader_unix.h | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/utl/parser/mmap_reader_unix.h b/include/utl/parser/mmap_reader_unix.h
index abf6dd4..823bf8b 100644
--- a/include/utl/parser/mmap_reader_unix.h
+++ b/include/utl/parser/mmap_reader_unix.h
@@ -30,10 +30,15 @@ struct mmap_reader {
     }
 
     file& operator=(file&& o) noexcept {
-      fd_ = o.fd_;
-      size_ = o.size_;
-      o.fd_ = -1;
-      o.size_ = 0;
+      if (this != &o) {
+        if (fd_ != -1) {
+          close(fd_);
+        }
+        fd_ = o.fd_;
+        size_ = o.size_;
+        o.fd_ = -1;
+        o.size_ = 0;
+      }
       return *this;
     }
 
@@ -76,9 +81,14 @@ struct mmap_reader {
     }
 
     memory_map& operator=(memory_map&& o) noexcept {
-      f_ = std::move(o.f_);
-      fmap_ = o.fmap_;
-      o.fmap_ = nullptr;
+      if (this != &o) {
+        if (fmap_ != nullptr && fmap_ != MAP_FAILED) {  // NOLINT
+          munmap(fmap_, f_.size_);
+        }
+        f_ = std::move(o.f_);
+        fmap_ = o.fmap_;
+        o.fmap_ = nullptr;
+      }
       return *this;
     }
 
-- 
2.43.0


From 7a1c64aa246887fc4611fec8c5beafda60847b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:11 +0000
Subject: [PATCH 25/42] fix: moved finally objects run each action exactly once

---
 include/utl/raii.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/utl/raii.h b/include/utl/raii.h
index 508333d..412103d 100644
--- a/include/utl/raii.h
+++ b/include/utl/raii.h
@@ -49,13 +49,18 @@ struct finally {
   finally(finally const&) = delete;
   finally& operator=(finally const&) = delete;
 
-  finally(finally&& o) noexcept : destruct_{std::move(o.destruct_)} {
-    o.exec_ = false;
-  }
+  finally(finally&& o) noexcept
+      : exec_{std::exchange(o.exec_, false)},
+        destruct_{std::move(o.destruct_)} {}
 
   finally& operator=(finally&& o) noexcept {
-    destruct_ = std::move(o.destruct_);
-    o.exec_ = false;
+    if (this != &o) {
+      if (exec_) {
+        destruct_();
+      }
+      destruct_ = std::move(o.destruct_);
+      exec_ = std::exchange(o.exec_, false);
+    }
     return *this;
   }
 
-- 
2.43.0


From a00d55271ee26005deab3b079bc01131de034109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:16 +0000
Subject: [PATCH 26/42] fix: sort_by accepts const containers

---
 include/utl/sort_by.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/sort_by.h b/include/utl/sort_by.h
index 9aa3767..c6084b7 100644
--- a/include/utl/sort_by.h
+++ b/include/utl/sort_by.h
@@ -29,7 +29,7 @@ std::tuple<std::decay_t<SortBy>, std::decay_t<Ts>...> sort_by(SortBy&& order,
             [&](auto&& a, auto&& b) { return order[a] < order[b]; });
   std::tuple<std::decay_t<SortBy>, std::decay_t<Ts>...> ret{order, ts...};
   std::apply(
-      [&](SortBy& first, Ts&... rest) {
+      [&](auto& first, auto&... rest) {
         apply_permutation(permutation, order, first);
         (apply_permutation(permutation, ts, rest), ...);
       },
-- 
2.43.0


From 40a5a6c0499939866142cb6094a729dda409af65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:16 +0000
Subject: [PATCH 27/42] fix: file::size reports a failing ftell instead of
 returning -1 as the size

---
 include/utl/parser/file.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/utl/parser/file.h b/include/utl/parser/file.h
index b8dc7cb..bd86dbb 100644
--- a/include/utl/parser/file.h
+++ b/include/utl/parser/file.h
@@ -161,6 +161,7 @@ struct file {
     auto err = std::fseek(f_, 0, SEEK_END);
     verify(!err, "fseek to SEEK_END error: {}", filename_);
     auto size = std::ftell(f_);
+    verify(size != -1, "ftell error: {}", filename_);
     std::rewind(f_);
     return static_cast<size_t>(size);
   }
-- 
2.43.0


From b3bdd767370d61800d01b64799c5493eeef46c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:41 +0000
Subject: [PATCH 28/42] fix: unescape_quoted_string erases at the found
 position beyond 4 GiB, too

---
 include/utl/parser/csv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/parser/csv.h b/include/utl/parser/csv.h
index 9b05bcc..62691ca 100644
--- a/include/utl/parser/csv.h
+++ b/include/utl/parser/csv.h
@@ -59,7 +59,7 @@ inline void unescape_quoted_string(StringType& arg) {
     if (found_at < arg.size() - 1U && arg[found_at + 1U] == '"') {
       // Since the string is now one character shorter,
       // found_at now points to the next character
-      arg.erase(static_cast<unsigned>(found_at), 1U);
+      arg.erase(static_cast<decltype(arg.size())>(found_at), 1U);
       ++found_at;  // Skip following character ("), we are now after the ""
     } else {
       ++found_at;  // Continue search from next character
-- 
2.43.0


From a30b57880b6ffec4627f36d60f97b0e7e0dd3945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:00 +0000
Subject: [PATCH 29/42] fix: progress_tracker::update_out reads the bounds and
 publishes the progress under the lock

---
 src/progress_tracker.cc | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/progress_tracker.cc b/src/progress_tracker.cc
index 33b2c59..cf71f59 100644
--- a/src/progress_tracker.cc
+++ b/src/progress_tracker.cc
@@ -119,16 +119,21 @@ void progress_tracker::increment(size_t const inc) {
 }
 
 void progress_tracker::update_out() {
-  auto const out_range = (out_high_ - out_low_);
-  auto const in_ratio = static_cast<float>(static_cast<double>(in_) /
-                                           static_cast<double>(in_high_));
-
-  auto const new_out = std::clamp(
-      out_low_ + std::round(out_range * in_ratio / out_mod_) * out_mod_,
-      out_low_, out_high_);
-
-  auto old_out = out_.exchange(new_out);
-  if (old_out != new_out) {
+  auto changed = false;
+  {
+    std::lock_guard<std::mutex> lock{mutex_};
+    auto const out_range = (out_high_ - out_low_);
+    auto const in_ratio = static_cast<float>(static_cast<double>(in_) /
+                                             static_cast<double>(in_high_));
+
+    auto const new_out = std::clamp(
+        out_low_ + std::round(out_range * in_ratio / out_mod_) * out_mod_,
+        out_low_, out_high_);
+
+    auto old_out = out_.exchange(new_out);
+    changed = old_out != new_out;
+  }
+  if (changed) {
     callback_(*this);
   }
 }
-- 
2.43.0


From 87ca796a13877a374efddafa4536481b4ff9e725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:06 +0000
Subject: [PATCH 30/42] fix: progress_tracker: the progress of an empty range
 is its upper bound, not NaN

---
 src/progress_tracker.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/progress_tracker.cc b/src/progress_tracker.cc
index cf71f59..24de3a4 100644
--- a/src/progress_tracker.cc
+++ b/src/progress_tracker.cc
@@ -126,9 +126,13 @@ void progress_tracker::update_out() {
     auto const in_ratio = static_cast<float>(static_cast<double>(in_) /
                                              static_cast<double>(in_high_));
 
-    auto const new_out = std::clamp(
-        out_low_ + std::round(out_range * in_ratio / out_mod_) * out_mod_,
-        out_low_, out_high_);
+    auto const new_out =
+        in_high_ == 0U
+            ? out_high_
+            : std::clamp(out_low_ + std::round(out_range * in_ratio /
+                                               out_mod_) *
+                                        out_mod_,
+                         out_low_, out_high_);
 
     auto old_out = out_.exchange(new_out);
     changed = old_out != new_out;
-- 
2.43.0


From b3f4e6e3eae5abe609cfb8681044621345e13833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:13 +0000
Subject: [PATCH 31/42] fix: global_progress_trackers::silent_ is switched
 while other threads print

---
 include/utl/progress_tracker.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/progress_tracker.h b/include/utl/progress_tracker.h
index c52add6..f5b1c64 100644
--- a/include/utl/progress_tracker.h
+++ b/include/utl/progress_tracker.h
@@ -87,7 +87,7 @@ struct global_progress_trackers {
   void clear();
 
   std::mutex mutex_;
-  bool silent_{true};
+  std::atomic_bool silent_{true};
   unsigned last_print_height_{0U};
   std::map<std::string, progress_tracker_ptr> trackers_;
   progress_tracker_ptr active_tracker_;
-- 
2.43.0


From 4aa37a561321c5232909138c1a0cc546639e1787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:46 +0000
Subject: [PATCH 32/42] fix: generator.h can be included on its own and more
 than once

---
 include/utl/generator.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/utl/generator.h b/include/utl/generator.h
index 4f2b3c8..a878d3b 100644
--- a/include/utl/generator.h
+++ b/include/utl/generator.h
@@ -1,5 +1,10 @@
+#pragma once
+
+#include <concepts>
 #include <coroutine>
 #include <exception>
+#include <utility>
+#include <vector>
 
 namespace utl {
 
-- 
2.43.0


From b0c90aad6236e77c542d4a3076050ef125352c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:47 +0000
Subject: [PATCH 33/42] fix: generator is moved instead of copied: two copies
 destroyed the same coroutine

---
 include/utl/generator.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/utl/generator.h b/include/utl/generator.h
index a878d3b..eb8ef85 100644
--- a/include/utl/generator.h
+++ b/include/utl/generator.h
@@ -32,7 +32,23 @@ struct generator {
 
   generator(handle_type h) : h_(h) {}
 
-  ~generator() { h_.destroy(); }
+  generator(generator const&) = delete;
+  generator& operator=(generator const&) = delete;
+
+  generator(generator&& o) noexcept
+      : h_{std::exchange(o.h_, nullptr)},
+        full_{std::exchange(o.full_, false)} {}
+  generator& operator=(generator&& o) noexcept {
+    std::swap(h_, o.h_);
+    std::swap(full_, o.full_);
+    return *this;
+  }
+
+  ~generator() {
+    if (h_) {
+      h_.destroy();
+    }
+  }
 
   explicit operator bool() {
     if (h_.done()) {
@@ -71,4 +87,4 @@ private:
   bool full_{false};
 };
 
-}  // namespace utl
\ No newline at end of file
+}  // namespace utl
-- 
2.43.0


From c3e543d2f0449d30ebbc8a7471c23b02e8f829b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:40 +0000
Subject: [PATCH 34/42] fix: sort_by.h could not be included twice in one file
 (no include guard)

---
 include/utl/sort_by.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/sort_by.h b/include/utl/sort_by.h
index c6084b7..d7e7b7e 100644
--- a/include/utl/sort_by.h
+++ b/include/utl/sort_by.h
@@ -1,4 +1,4 @@
-#include <vector>
+#pragma once
 
 #include <algorithm>
 #include <tuple>
-- 
2.43.0


From b8bd99a400ca7a2605432630f0b2973a78d529ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:50 +0000
Subject: [PATCH 35/42] fix: headers missed the includes they need and only
 compiled behind other headers

---
 include/utl/for_each_line_in_file.h   | 2 ++
 include/utl/get_or_create_index.h     | 5 ++++-
 include/utl/insert_sorted.h           | 2 ++
 include/utl/overloaded.h              | 2 ++
 include/utl/parser/line_range.h       | 2 ++
 include/utl/parser/mmap_reader_unix.h | 1 +
 include/utl/pipes/generate.h          | 1 +
 include/utl/pipes/iterable.h          | 4 ++++
 include/utl/sorted_diff.h             | 1 +
 include/utl/timer.h                   | 1 +
 10 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/utl/for_each_line_in_file.h b/include/utl/for_each_line_in_file.h
index d2e7f0c..11d0428 100755
--- a/include/utl/for_each_line_in_file.h
+++ b/include/utl/for_each_line_in_file.h
@@ -1,6 +1,8 @@
 #pragma once
 
+#include <cstdio>
 #include <fstream>
+#include <iostream>
 #include <istream>
 #include <string>
 
diff --git a/include/utl/get_or_create_index.h b/include/utl/get_or_create_index.h
index a99a913..782c2f3 100644
--- a/include/utl/get_or_create_index.h
+++ b/include/utl/get_or_create_index.h
@@ -1,9 +1,12 @@
 #pragma once
 
+#include <cstddef>
+#include <iterator>
+
 namespace utl {
 
 template <typename Map, typename K>
-size_t get_or_create_index(Map& m, K const& key) {
+std::size_t get_or_create_index(Map& m, K const& key) {
   auto it = m.find(key);
   if (it != end(m)) {
     return it->second;
diff --git a/include/utl/insert_sorted.h b/include/utl/insert_sorted.h
index 04e0c2e..871986f 100644
--- a/include/utl/insert_sorted.h
+++ b/include/utl/insert_sorted.h
@@ -1,6 +1,8 @@
 #pragma once
 
 #include <algorithm>
+#include <functional>
+#include <iterator>
 #include <utility>
 
 namespace utl {
diff --git a/include/utl/overloaded.h b/include/utl/overloaded.h
index 2a6ee29..f697171 100644
--- a/include/utl/overloaded.h
+++ b/include/utl/overloaded.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <utility>
+
 namespace utl {
 
 template <typename Ret, typename Arg, typename... Rest>
diff --git a/include/utl/parser/line_range.h b/include/utl/parser/line_range.h
index 5255be2..1f82b7e 100644
--- a/include/utl/parser/line_range.h
+++ b/include/utl/parser/line_range.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <utility>
+
 #include "utl/pipes/is_range.h"
 
 namespace utl {
diff --git a/include/utl/parser/mmap_reader_unix.h b/include/utl/parser/mmap_reader_unix.h
index 823bf8b..d5fd42b 100644
--- a/include/utl/parser/mmap_reader_unix.h
+++ b/include/utl/parser/mmap_reader_unix.h
@@ -4,6 +4,7 @@
 #include <sys/mman.h>
 #include <sys/stat.h>
 #include <unistd.h>
+#include <algorithm>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
diff --git a/include/utl/pipes/generate.h b/include/utl/pipes/generate.h
index ea0e5ef..defd675 100644
--- a/include/utl/pipes/generate.h
+++ b/include/utl/pipes/generate.h
@@ -3,6 +3,7 @@
 #include <type_traits>
 #include <utility>
 
+#include "utl/clear_t.h"
 #include "utl/pipes/is_range.h"
 
 namespace utl {
diff --git a/include/utl/pipes/iterable.h b/include/utl/pipes/iterable.h
index 8baeabf..791a2da 100644
--- a/include/utl/pipes/iterable.h
+++ b/include/utl/pipes/iterable.h
@@ -1,6 +1,10 @@
 #pragma once
 
 #include <cstddef>
+#include <iterator>
+#include <utility>
+
+#include "utl/clear_t.h"
 
 namespace utl {
 
diff --git a/include/utl/sorted_diff.h b/include/utl/sorted_diff.h
index 6dfef47..8bb66b6 100644
--- a/include/utl/sorted_diff.h
+++ b/include/utl/sorted_diff.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cinttypes>
 #include <string_view>
 #include <utility>
 
diff --git a/include/utl/timer.h b/include/utl/timer.h
index 03858d4..41d2037 100644
--- a/include/utl/timer.h
+++ b/include/utl/timer.h
@@ -2,6 +2,7 @@
 
 #include <chrono>
 #include <string>
+#include <string_view>
 
 namespace utl {
 
-- 
2.43.0


From 337c2a30555e759a836921fd6b6aa5730d85d182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:42 +0000
Subject: [PATCH 36/42] fix: utl::time read an indeterminate buffer when the
 year does not fit

---
 include/utl/logging.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/utl/logging.h b/include/utl/logging.h
index 8359454..00e7740 100644
--- a/include/utl/logging.h
+++ b/include/utl/logging.h
@@ -55,8 +55,7 @@ inline std::string time(time_t const t) {
   char buf[sizeof "2011-10-08t07:07:09z-0430"];
   struct tm result {};
   gmt(&t, &result);
-  strftime(buf, sizeof buf, "%FT%TZ%z", &result);
-  return buf;
+  return {buf, strftime(buf, sizeof buf, "%FT%TZ%z", &result)};
 }
 
 inline std::string time() {
-- 
2.43.0


From 6e9250d71fc3ce9c7995fefa1f029945d4f02ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:12 +0000
Subject: [PATCH 37/42] fix: iterator_facade could not be compared with its
 sentinel

The concept looked for sentinel_type in the sentinel instead of in the iterator.
The distance to a sentinel exists only where distance_to() accepts one.
---
 include/utl/iterator_facade.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/utl/iterator_facade.h b/include/utl/iterator_facade.h
index 201e355..c5f0757 100644
--- a/include/utl/iterator_facade.h
+++ b/include/utl/iterator_facade.h
@@ -111,7 +111,7 @@ template <typename T>
 concept iter_is_single_pass = bool(T::single_pass_iterator);
 
 template <typename T, typename Iter>
-concept iter_sentinel = std::is_same_v<T, typename T::sentinel_type>;
+concept iter_sentinel = std::is_same_v<T, typename Iter::sentinel_type>;
 
 // clang-format on
 
@@ -345,7 +345,9 @@ public:
 
   template <detail::iter_sentinel<self_type> S>
   [[nodiscard]] constexpr friend auto operator-(
-      S s, const self_type& self) noexcept {
+      S s, const self_type& self) noexcept
+    requires requires { self.distance_to(s); }
+  {
     return self.distance_to(s);
   }
 
-- 
2.43.0


From f120c1fda6ee19c3734e8911707c8ca07588d42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:12 +0000
Subject: [PATCH 38/42] fix: iterator_facade refused iterators with advance()
 but without distance_to()

They are documented to be bidirectional, unless they are single-pass.
---
 include/utl/iterator_facade.h | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/include/utl/iterator_facade.h b/include/utl/iterator_facade.h
index c5f0757..54ddae8 100644
--- a/include/utl/iterator_facade.h
+++ b/include/utl/iterator_facade.h
@@ -104,7 +104,7 @@ iter_has_advance_method<T>;
 
 template <typename T>
 concept iter_is_bidirectional =
-iter_is_random_access<T> ||
+iter_has_advance_method<T> ||
 iter_has_decrement_method<T>;
 
 template <typename T>
@@ -274,12 +274,12 @@ public:
       // If there is an increment(), assume it is the most efficient way to
       // advance, even if we have an advance()
       _self().increment();
-    } else if constexpr (detail::iter_is_random_access<self_type>) {
+    } else if constexpr (detail::iter_has_advance_method<self_type>) {
       // Just offset by one
-      _self() += 1;
+      _self().advance(1);
     } else {
       // Bad!
-      static_assert(detail::iter_is_random_access<self_type>,
+      static_assert(detail::iter_has_advance_method<self_type>,
                     "Iterator subclass must provide an `increment` or "
                     "`advance(n)` method");
     }
@@ -304,7 +304,7 @@ public:
     if constexpr (detail::iter_has_decrement_method<self_type>) {
       _self().decrement();
     } else {
-      _self() -= 1;
+      _self().advance(-1);
     }
     return _self();
   }
@@ -510,20 +510,20 @@ struct iterator_traits<Derived> {
 
   // Pick the iterator category based on the interfaces that it provides
   using iterator_category = std::conditional_t<
-      // Random access?
-      utl::detail::iter_is_random_access<Derived>,
-      std::random_access_iterator_tag,
+      // Is it single-pass?
+      utl::detail::iter_is_single_pass<Derived>,
+      // Than means it is an input iterator
+      std::input_iterator_tag,
       // Nope
       std::conditional_t<
-          // Bidirectional?
-          utl::detail::iter_is_bidirectional<Derived>,
-          std::bidirectional_iterator_tag,
+          // Random access?
+          utl::detail::iter_is_random_access<Derived>,
+          std::random_access_iterator_tag,
           // Noh
           std::conditional_t<
-              // Is it single-pass?
-              utl::detail::iter_is_single_pass<Derived>,
-              // Than means it is an input iterator
-              std::input_iterator_tag,
+              // Bidirectional?
+              utl::detail::iter_is_bidirectional<Derived>,
+              std::bidirectional_iterator_tag,
               // Otherwise it is a forward iterator
               std::forward_iterator_tag>>>;
 
-- 
2.43.0


From 00ef42732879175f234e90f1fa9f359ce11b1fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:12 +0000
Subject: [PATCH 39/42] fix: iterator_wrapper_facade did not compile around
 bidirectional iterators

The arguments of the random access test were swapped.
---
 include/utl/iterator_facade.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/iterator_facade.h b/include/utl/iterator_facade.h
index 54ddae8..67b980b 100644
--- a/include/utl/iterator_facade.h
+++ b/include/utl/iterator_facade.h
@@ -483,8 +483,8 @@ public:
   // clang-format off
   constexpr auto distance_to(const self_type& other) const noexcept
   requires std::is_base_of_v<
-      typename std::iterator_traits<InnerIterator>::iterator_category,
-      std::random_access_iterator_tag> {
+      std::random_access_iterator_tag,
+      typename std::iterator_traits<InnerIterator>::iterator_category> {
     return other.wrapped_iterator - wrapped_iterator;
   }
   // clang-format on
-- 
2.43.0


From 7a608bbd9c06c46833b871ddd6e36b83714c6f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:12 +0000
Subject: [PATCH 40/42] fix: arrow_proxy copied the value it is given, which
 may be move-only

---
 include/utl/iterator_facade.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/iterator_facade.h b/include/utl/iterator_facade.h
index 67b980b..ff10fd9 100644
--- a/include/utl/iterator_facade.h
+++ b/include/utl/iterator_facade.h
@@ -127,7 +127,7 @@ class arrow_proxy {
   T _value;
 
 public:
-  explicit arrow_proxy(T&& t) : _value(t) {}
+  explicit arrow_proxy(T&& t) : _value(std::forward<T>(t)) {}
 
   auto operator->() noexcept { return std::addressof(_value); }
   auto operator->() const noexcept { return std::addressof(_value); }
-- 
2.43.0


From 755bc1b81df86549edf2e58f547cc93a07dec8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:13 +0000
Subject: [PATCH 41/42] fix: PRINTABLE_ENUM kept the blanks before a comma in
 the enumerator's name

---
 include/utl/printable_enum.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/utl/printable_enum.h b/include/utl/printable_enum.h
index 7b6f269..163b89d 100644
--- a/include/utl/printable_enum.h
+++ b/include/utl/printable_enum.h
@@ -17,6 +17,9 @@
       start = c;                                                     \
       c = std::find(std::next(c), end(s), ',');                      \
     }                                                                \
+    while (*std::prev(c) == ' ') {                                   \
+      --c;                                                           \
+    }                                                                \
     return {start, c};                                               \
   }                                                                  \
   inline std::ostream& operator<<(std::ostream& out, name const v) { \
-- 
2.43.0


From 3d8fe982c9d40cd83588dc332f8458593f79a38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:25 +0000
Subject: [PATCH 42/42] fix: enumerate: the end iterator knows its index
 (retreating from end, distance of lists)

---
 include/utl/enumerate.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/utl/enumerate.h b/include/utl/enumerate.h
index 7d418cf..2217b27 100644
--- a/include/utl/enumerate.h
+++ b/include/utl/enumerate.h
@@ -96,8 +96,16 @@ constexpr auto enumerate(T&& iterable) {
     }
 
     auto end() {
+      using std::begin;
       using std::end;
-      return iterator<TIter>{0U, end(iterable_)};
+      auto size = std::size_t{0U};
+      if constexpr (requires { std::size(iterable_); }) {
+        size = static_cast<std::size_t>(std::size(iterable_));
+      } else if constexpr (std::forward_iterator<TIter>) {
+        size = static_cast<std::size_t>(
+            std::distance(begin(iterable_), end(iterable_)));
+      }
+      return iterator<TIter>{size, end(iterable_)};
     }
 
     T iterable_;
-- 
2.43.0

