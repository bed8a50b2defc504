#include <cstddef>
#include <cstdint>
#include "utl/parser/cstr.h"
using utl::cstr;
extern "C" {
void out(char const* p, std::size_t n) noexcept;
void outb(bool) noexcept;
void outn(std::size_t) noexcept;
bool op_skip(char const* p, std::size_t n) noexcept;
}
static void o(cstr s) { out(s.str, s.len); }
extern "C" {
void sub_ps(char const* t, std::size_t n, std::size_t x, std::size_t y) { o(cstr{t, n}.substr(x, utl::size(y))); }
void sub_be(char const* t, std::size_t n, std::size_t x, std::size_t y) { o(cstr{t, n}.substr(x, y)); }
void sub_b(char const* t, std::size_t n, std::size_t x) { o(cstr{t, n}.substr(x)); }
void sub_f(char const* t, std::size_t n, std::size_t x, std::size_t y) { o(cstr{t, n}.substr(utl::field{x, y})); }
void sub_fmax(char const* t, std::size_t n, std::size_t x) { o(cstr{t, n}.substr(utl::field{x, utl::field::MAX_SIZE})); }
void ctor_be(char const* t, char const* te) { o(cstr{t, te}); }
void plus(char const* t, std::size_t n, std::size_t k) { o(cstr{t, n} + k); }
void plus_eq(char const* t, std::size_t n, std::size_t k) { cstr c{t, n}; c += k; o(c); }
void inc(char const* t, std::size_t n) { cstr c{t, n}; ++c; o(c); }
void views(char const* t, std::size_t n) { cstr c{t, n}; auto v = c.view(); out(v.data(), v.size()); std::string_view w = c; out(w.data(), w.size()); cstr d{v}; o(d); auto s = c.to_str(); out(s.data(), s.size()); cstr e{s}; o(e); out(c.begin(), static_cast<std::size_t>(c.end() - c.begin())); }
void ws_front(char const* t, std::size_t n) { o(cstr{t, n}.skip_whitespace_front()); }
void ws_back(char const* t, std::size_t n) { o(cstr{t, n}.skip_whitespace_back()); }
void trim(char const* t, std::size_t n) { o(cstr{t, n}.trim()); }
void strip(char const* t, std::size_t n) { o(utl::strip_cr(cstr{t, n})); }
void until(char const* t, std::size_t n, char sep) { o(utl::get_until(cstr{t, n}, sep)); }
void line(char const* t, std::size_t n) { o(utl::get_line(cstr{t, n})); }
void eq(char const* t, std::size_t n, char const* u, std::size_t m) { outb(cstr{t, n} == cstr{u, m}); }
void ne(char const* t, std::size_t n, char const* u, std::size_t m) { outb(cstr{t, n} != cstr{u, m}); }
void lt(char const* t, std::size_t n, char const* u, std::size_t m) { outb(cstr{t, n} < cstr{u, m}); }
void starts(char const* t, std::size_t n, char const* u, std::size_t m) { outb(cstr{t, n}.starts_with(cstr{u, m})); }
void contains(char const* t, std::size_t n, char const* u, std::size_t m) { outb(cstr{t, n}.contains(cstr{u, m})); }
void offset(char const* t, std::size_t n, char const* u, std::size_t m) { outn(cstr{t, n}.substr_offset(cstr{u, m})); }
void valid(char const* t, std::size_t n) { outb(cstr{t, n}.valid()); outb(static_cast<bool>(cstr{t, n})); outb(!cstr{t, n}.empty()); outn(cstr{t, n}.length()); }
void nul_trim() { o(cstr{}.trim()); o(utl::strip_cr(cstr{})); o(utl::get_until(cstr{}, ',')); o(utl::get_line(cstr{})); o(cstr{}.substr(0, utl::size(3))); }

void tok_void(char const* t, std::size_t n, char sep) { utl::for_each_token(cstr{t, n}, sep, [](cstr c) { o(c); }); }
void tok_brk(char const* t, std::size_t n, char sep) {
  utl::for_each_token(cstr{t, n}, sep, [](cstr c) { return op_skip(c.str, c.len) ? utl::continue_t::kContinue : utl::continue_t::kBreak; });
}
void tok_num(char const* t, std::size_t n, char sep) { utl::for_each_token_numbered(cstr{t, n}, sep, [](cstr c, auto k) { outn(static_cast<std::size_t>(k)); o(c); }); }
void line_void(char const* t, std::size_t n) { utl::for_each_line(cstr{t, n}, [](cstr c) { o(c); }); }
void line_num(char const* t, std::size_t n) { utl::for_each_line_numbered(cstr{t, n}, [](cstr c, auto k) { outn(static_cast<std::size_t>(k)); o(c); }); }
void line_it(char const* t, std::size_t n) { for (auto const& l : utl::lines{cstr{t, n}}) { o(l); } }
void line_it_nul() { for (auto const& l : utl::lines{cstr{}}) { o(l); } }
void line_post(char const* t, std::size_t n) {
  auto const l = utl::lines{cstr{t, n}};
  auto it = l.begin();
  auto const e = end(l);
  while (it != e) { o(*it++); }
}
void skip(char const* t, std::size_t n) { auto r = utl::skip_lines(cstr{t, n}, [](cstr c) { return op_skip(c.str, c.len); }); outn(0); o(r); }
}
#include "utl/parser/buf_reader.h"
extern "C" {
void outp(std::size_t) noexcept;
}
struct consumer { void operator()(std::size_t p) { outp(p); } };
extern "C" {
void rd(char const* t, std::size_t n) {
  utl::buf_reader<> r{cstr{t, n}};
  for (auto l = r.read_line(); l.str != nullptr; l = r.read_line()) { o(l); }
}
void rd_prog(char const* t, std::size_t n) {
  utl::buf_reader<consumer> r{cstr{t, n}, consumer{}};
  for (auto l = r.read_line(); l.str != nullptr; l = r.read_line()) { o(l); }
}
void rd_make(char const* t, std::size_t n) {
  auto r = utl::make_buf_reader(cstr{t, n}, consumer{});
  for (auto l = r.read_line(); l.str != nullptr; l = r.read_line()) { o(l); }
}
void rd_move(char const* t, std::size_t n) {
  auto r = utl::make_buf_reader(cstr{t, n});
  auto l = r.read_line();
  if (l.str != nullptr) { o(l); }
  auto q = std::move(r);
  for (auto l = q.read_line(); l.str != nullptr; l = q.read_line()) { o(l); }
}
}
