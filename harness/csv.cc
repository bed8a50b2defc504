#include <cstddef>
#include <cstdint>
#include "utl/parser/csv.h"
using utl::cstr;
extern "C" {
void out(char const* p, std::size_t n) noexcept;
void rest(char const* p, std::size_t n) noexcept;
char const* s_ptr() noexcept;
std::size_t s_len() noexcept;
void s_erase(std::size_t i, std::size_t n) noexcept;
}
template <char Sep>
static void col(cstr s) { cstr a; utl::parse_column<cstr, Sep>(s, a); out(a.str, a.len); rest(s.str, s.len); }
extern "C" {
void col_comma(char const* t, std::size_t n) { col<','>(cstr{t, n}); }
void col_semi(char const* t, std::size_t n) { col<';'>(cstr{t, n}); }
struct str {
  operator std::string_view() const { return {s_ptr(), s_len()}; }
  std::size_t size() const { return s_len(); }
  std::size_t length() const { return s_len(); }
  bool empty() const { return s_len() == 0; }
  char const* data() const { return s_ptr(); }
  char operator[](std::size_t i) const { return s_ptr()[i]; }
  std::size_t find(char c, std::size_t p = 0) const { return std::string_view{*this}.find(c, p); }
  str& erase(std::size_t i, std::size_t n) { s_erase(i, n); return *this; }
};
void unescape() { str s; utl::unescape_quoted_string(s); }
}
