// Arbitrary histories of the owning types: every acquired resource is released
// exactly once, whatever fails in between.
#include <cstdio>
#include <cstring>
#include <algorithm>
#include <type_traits>
#include <utility>
#include "utl/parser/buffer.h"
#include "utl/parser/file.h"
#include "utl/parser/mmap_reader.h"
#include "utl/raii.h"
extern "C" {
bool more(int n) noexcept;                           // continue the history? at most n resources are owned here
int pick() noexcept;                                 // next operation
std::size_t num() noexcept;
void view(void const* p, std::size_t n) noexcept;    // memory handed to the user: [p, p + n) is readable
void same(void const* p, void const* q) noexcept;    // one object, one owner
void text(void const* p, std::size_t n) noexcept;    // [p, p + n) holds the text
void live(FILE* f) noexcept;                         // handle handed to the user
bool fails() noexcept;                               // does user code throw here?
void act(long id) noexcept; void acts(char const* id) noexcept; extern char A1, A2;                          // a pending action / destructor runs
void pending(long id) noexcept;                       // it must not have run yet
void resized(std::size_t is, std::size_t want) noexcept;
void omit(long id) noexcept;                         // it shall not run
int ints() noexcept;
}
struct err {};
inline void user() { if (fails()) { throw err{}; } }
using utl::buffer;
template <typename B> void show(B& b) { view(b.data(), b.size()); }
template <typename T> T& id(T& t) { return t; }

// what the type permits
template <typename T, typename Fn> void copy_to(T& b, T& a, Fn&& look) {
  if constexpr (std::is_copy_constructible_v<T>) { T c{id<T const>(a)}; look(c); user(); }
  if constexpr (std::is_copy_assignable_v<T>) { b = id<T const>(a); }
}
template <typename T, typename Fn> bool through(T& a, Fn&& look) {
  if constexpr (std::is_move_constructible_v<T>) {
    T c{std::move(a)}; look(c); user();
    if constexpr (std::is_move_assignable_v<T>) { a = std::move(c); return true; }
    return false;
  }
  return true;
}
template <typename T, typename Mk> void renew(T& a, Mk&& mk) {
  if constexpr (std::is_move_assignable_v<T>) { a = mk(); }
}
template <typename T> void self(T& a) {
  if constexpr (std::is_move_assignable_v<T>) { a = std::move(id(a)); }
}

extern "C" {
void bu_hist(char const* s) {
  buffer a, b;
  while (more(2)) {
    try {
      switch (pick()) {
        case 0: { auto const p = b.data(); a = std::move(b); same(a.data(), p); break; }
        case 1: { auto const p = a.data(); b = std::move(a); same(b.data(), p); break; }
        case 2: a = std::move(id(a)); break;
        case 3: { auto const p = a.data(); buffer c{std::move(a)}; same(c.data(), p); show(c); user(); b = std::move(c); break; }
        case 4: a = buffer{num()}; break;
        case 5: { auto const n = num(); a.resize(n); resized(a.size(), n); break; }
        case 6: a = buffer{s}; break;
        case 7: std::swap(a, b); break;
        case 8: copy_to(b, a, [](buffer& c) { show(c); }); break;
        default: user();
      }
    } catch (...) {
    }
    show(a);
    show(b);
  }
}
void bu_str(char const* s) { buffer b{s}; text(b.data(), b.size()); view(b.data(), b.size()); }
void bu_mem(char const* s, std::size_t n) { buffer b{s, n}; text(b.data(), b.size()); view(b.begin(), static_cast<std::size_t>(b.end() - b.begin())); }
void fi_hist(char const* path) {
  while (more(0)) {
    try {
      utl::file f{path, "r"};
      live(f);
      while (more(1)) {
        switch (pick()) {
          case 0: f.size(); break;
          case 1: { auto b = f.content(); show(b); user(); break; }
          case 2: f.content_str(); break;
          case 3: f.write(path, num()); break;
          case 4: copy_to(f, f, [](utl::file& g) { live(g); }); break;
          case 5: if (!through(f, [](utl::file& g) { live(g); })) { return; } break;
          case 6: renew(f, [&] { return utl::file{path, "w+"}; }); break;
          case 7: self(f); break;
          default: user();
        }
        live(f);
      }
    } catch (...) {
    }
  }
}
void mr_hist(char const* path) {
  using mm = utl::mmap_reader::memory_map;
  while (more(0)) {
    try {
      mm a{path};
      view(a.ptr(), a.size());
      mm b{path};
      while (more(4)) {
        switch (pick()) {
          case 0: { auto const p = a.ptr(); b = std::move(a); same(b.ptr(), p); view(b.ptr(), b.size()); a = mm{path}; break; }
          case 1: { mm c{std::move(a)}; view(c.ptr(), c.size()); user(); a = std::move(c); break; }
          case 2: a = std::move(id(a)); break;
          case 3: std::swap(a, b); break;
          default: user();
        }
        view(a.ptr(), a.size());
        view(b.ptr(), b.size());
      }
    } catch (...) {
    }
  }
}
void mf_hist(char const* path) {
  using mf = utl::mmap_reader::file;
  while (more(0)) {
    try {
      mf a{path};
      mf b{path};
      while (more(2)) {
        switch (pick()) {
          case 0: b = std::move(a); a = mf{path}; break;
          case 1: { mf c{std::move(a)}; user(); a = std::move(c); break; }
          case 2: a = std::move(id(a)); break;
          case 3: std::swap(a, b); break;
          default: user();
        }
      }
    } catch (...) {
    }
  }
}
void rd_hist(char const* path) {
  while (more(0)) {
    try {
      utl::mmap_reader r{path};
      while (more(2)) {
        switch (pick()) {
          case 0: { auto const s = r.read(num()); view(s.data(), s.length()); break; }
          case 1: { auto const s = r.read_line(); view(s.data(), s.length()); break; }
          case 2: { utl::mmap_reader q{std::move(r)}; auto const s = q.read(num()); view(s.data(), s.length()); user(); r = std::move(q); break; }
          case 3: r = utl::mmap_reader{path}; break;
          default: user();
        }
      }
    } catch (...) {
    }
  }
}
}

struct fn_act {  // an action that may only run once
  explicit fn_act(char const* id) : id_{id} {}
  void operator()() const { acts(id_); }
  char const* id_;
};
struct fn_del {
  void operator()(long id) const { act(id); }
};
extern "C" {
void fy_scope() {
  try {
    auto f = utl::make_finally(fn_act{&A1});
    pending(1);
    user();
    pending(1);
  } catch (...) {
  }
}
void fy_macro() {
  try {
    UTL_FINALLY(fn_act{&A1})
    UTL_FINALLY([]() { act(2); })
    pending(1);
    pending(2);
    user();
    pending(1);
    pending(2);
  } catch (...) {
  }
}
void fy_hist() {
  using fy = utl::finally<fn_act>;
  try {
    fy a{fn_act{&A1}};
    fy b{fn_act{&A2}};
    while (more(0)) {
      switch (pick()) {
        case 0: a = std::move(b); break;
        case 1: b = std::move(a); break;
        case 2: { fy c{std::move(a)}; user(); break; }
        case 3: { fy c{std::move(a)}; fy d{std::move(c)}; user(); a = std::move(d); break; }
        case 4: { fy c{std::move(b)}; break; }
        case 5: a = std::move(id(a)); break;
        default: user();
      }
    }
  } catch (...) {
  }
}
void ra_scope() {
  try {
    auto r = utl::make_raii(1L, fn_del{});
    if (r.get() != 1 || static_cast<long>(r) != 1) { act(7); }
    if (pick() == 0) { r.omit_destruct_ = true; omit(1); }
    pending(1);
    user();
    pending(1);
  } catch (...) {
  }
}
void ra_lv() {
  long x = 1;
  auto d = fn_del{};
  try {
    auto r = utl::make_raii(x, d);
    auto q = utl::make_raii(2L, [](long y) { act(y); });
    user();
  } catch (...) {
  }
}
}
