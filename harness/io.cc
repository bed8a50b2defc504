#include <algorithm>
#include <cstddef>
#include <iostream>
#include "utl/parser/file.h"
#include "utl/parser/mmap_reader.h"
#include "utl/read_file.h"
#include "utl/for_each_line_in_file.h"
extern "C" {
void out(void const* p, std::size_t n) noexcept;   // bytes handed out
void outn(std::size_t) noexcept;                   // a size handed out
void outr(void const* p, std::size_t n, std::size_t asked) noexcept;
void failed() noexcept;                            // the call reports failure
std::size_t num() noexcept;
bool coin() noexcept;
void disturb(FILE*) noexcept;                      // moves the file position anywhere
void disturbed(char const*) noexcept;
}
extern "C" {
void f_content(char const* path) {
  utl::file f{path, "r"};
  auto const b = f.content();
  out(b.data(), b.size());
}
void f_content_any(char const* path) {
  utl::file f{path, "r"};
  disturb(f);
  auto const b = f.content();
  out(b.data(), b.size());
}
void f_str(char const* path) {
  utl::file f{path, "r"};
  disturb(f);
  auto const b = f.content_str();
  out(b.data(), b.size());
}
void f_size(char const* path) {
  utl::file f{path, "r"};
  disturb(f);
  outn(f.size());
}
void f_write(char const* t, std::size_t n, char const* path) {
  utl::file f{path, "w+"};
  f.write(t, n);
}
void rf(char const* path) {
  auto const s = utl::read_file(path);
  if (s.has_value()) {
    out(s->data(), s->size());
  } else {
    failed();
  }
}
void mm_lines(char const* path) {
  utl::mmap_reader r{path};
  for (auto l = r.read_line(); l.str != nullptr; l = r.read_line()) { out(l.str, l.len); }
}
void mm_read(char const* path) {
  utl::mmap_reader r{path};
  for (;;) {
    auto const n = num();
    auto const c = r.read(n);
    outr(c.str, c.len, n);
    if (c.len < n) { break; }
  }
}
void mm_mixed(char const* path) {
  utl::mmap_reader r{path};
  while (coin()) {
    if (coin()) {
      auto const n = num();
      auto const c = r.read(n);
      outr(c.str, c.len, n);
    } else {
      auto const l = r.read_line();
      if (l.str == nullptr) { return; }
      out(l.str, l.len);
    }
  }
  for (auto l = r.read_line(); l.str != nullptr; l = r.read_line()) { out(l.str, l.len); }
}
void mm_move(char const* path) {
  utl::mmap_reader r{path};
  auto const l = r.read_line();
  if (l.str != nullptr) { out(l.str, l.len); }
  utl::mmap_reader q{std::move(r)};
  for (auto l = q.read_line(); l.str != nullptr; l = q.read_line()) { out(l.str, l.len); }
}
void mm_assign(char const* path, char const* other) {
  utl::mmap_reader r{path};
  utl::mmap_reader q{other};
  auto const l = r.read_line();
  if (l.str != nullptr) { out(l.str, l.len); }
  q = std::move(r);
  for (auto l = q.read_line(); l.str != nullptr; l = q.read_line()) { out(l.str, l.len); }
}
void fl(char const* path) {
  utl::for_each_line_in_file(path, [](std::string const& l) { out(l.data(), l.size()); });
}
}
